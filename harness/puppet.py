"""A scripted TLS 1.3 peer, written from RFC 8446 on top of the oracle of the key schedule.

It shares no code with the code under test, so it can send any message, in any order, of any
content, properly protected, and judge what it is sent."""
from types import SimpleNamespace

from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, padding, x25519
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

from siotls import TLSConnection

from symex.api import Inconclusive

from harness import oracle
from harness.observe import HRR_RANDOM
from harness.world import (
    CERT, HOST, KEY, client_config, der, handshake, record, server_config, spki, u16, u24, u8,
    vec16, vec24, vec8,
)

# handshake types
CH, SH, NST, EOED, EE, CT, CR, CV, FIN, KU, MH = 1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254
# extension types
(SNI, MFL, OCSP, GROUPS, SIGALGS, SRTP, HEARTBEAT, ALPN, SCT, CCT, SCTYPE, PADDING, PSK, EARLY, VERSIONS,
 COOKIE, PSKM, CAS, OID, PHA, SIGCERT, SHARE) = (
    0, 1, 5, 10, 13, 14, 15, 16, 18, 19, 20, 21, 41, 42, 43, 44, 45, 47, 48, 49, 50, 51)
X25519, P256, P384, P521, X448 = 0x1d, 0x17, 0x18, 0x19, 0x1e
ED25519, ECDSA_P256, ECDSA_P384, PSS256, PSS384, PSS512, PKCS256 = (
    0x0807, 0x0403, 0x0503, 0x0804, 0x0805, 0x0806, 0x0401)
ALERT_FATAL, ALERT_WARNING = 2, 1

SERVER_CONTEXT = b'\x20' * 64 + b'TLS 1.3, server CertificateVerify\x00'
CLIENT_CONTEXT = b'\x20' * 64 + b'TLS 1.3, client CertificateVerify\x00'


def ext(ext_type, body):
    return u16(ext_type) + vec16(body)

def extensions(*exts):
    return vec16(b''.join(exts))

def certificate_entry(data, *exts):
    return vec24(data) + extensions(*exts)

def certificate_message(*entries, context=b''):
    return vec8(context) + vec24(b''.join(entries))

def parse_extensions(data):
    """[(type, body)] of a whole extension block."""
    if int.from_bytes(data[:2], 'big') != len(data) - 2:
        raise Inconclusive('length of the extensions')
    out = []
    at = 2
    while at < len(data):
        n = int.from_bytes(data[at + 2:at + 4], 'big')
        out.append((int.from_bytes(data[at:at + 2], 'big'), data[at + 4:at + 4 + n]))
        at += 4 + n
    return out


# ------------------------------------------------------------------------------- its key exchange

_PRIVATE = {
    X25519: lambda n: x25519.X25519PrivateKey.from_private_bytes(bytes([n]) * 32),
    P256: lambda n: ec.derive_private_key(0x1234567 + n, ec.SECP256R1()),
    P384: lambda n: ec.derive_private_key(0x1234567 + n, ec.SECP384R1()),
    P521: lambda n: ec.derive_private_key(0x1234567 + n, ec.SECP521R1()),
}
_CURVE = {P256: ec.SECP256R1, P384: ec.SECP384R1, P521: ec.SECP521R1}

class Share:
    def __init__(self, group, n=7):
        self.group = group
        self.private = _PRIVATE[group](n)
        if group == X25519:
            self.public = self.private.public_key().public_bytes_raw()
        else:
            self.public = self.private.public_key().public_bytes(
                Encoding.X962, PublicFormat.UncompressedPoint)

    def exchange(self, peer):
        peer = bytes(peer)
        if self.group == X25519:
            return self.private.exchange(x25519.X25519PublicKey.from_public_bytes(peer))
        return self.private.exchange(ec.ECDH(), ec.EllipticCurvePublicKey.from_encoded_point(
            _CURVE[self.group](), peer))


# --------------------------------------------------------------------------------- its signatures

def pss(h):
    return padding.PSS(padding.MGF1(h), h.digest_size)

def sign(key, algorithm, content):
    key = KEY[key]
    if algorithm == ED25519:
        return key.sign(content)
    if algorithm == ECDSA_P256:
        return key.sign(content, ec.ECDSA(hashes.SHA256()))
    if algorithm == ECDSA_P384:
        return key.sign(content, ec.ECDSA(hashes.SHA384()))
    h = {PSS256: hashes.SHA256(), PSS384: hashes.SHA384(), PSS512: hashes.SHA512()}[algorithm]
    return key.sign(content, pss(h), h)

def verify(public, algorithm, signature, content):
    if algorithm == ED25519:
        return public.verify(signature, content)
    if algorithm == ECDSA_P256:
        return public.verify(signature, content, ec.ECDSA(hashes.SHA256()))
    if algorithm == ECDSA_P384:
        return public.verify(signature, content, ec.ECDSA(hashes.SHA384()))
    h = {PSS256: hashes.SHA256(), PSS384: hashes.SHA384(), PSS512: hashes.SHA512()}[algorithm]
    return public.verify(signature, content, pss(h), h)

ALGORITHM = {'ed': ED25519, 'ed2': ED25519, 'server': ECDSA_P256, 'other_host': ECDSA_P256,
             'expired': ECDSA_P256, 'revoked': ECDSA_P256, 'server_ocsp': ECDSA_P256,
             'p384': ECDSA_P384, 'rsa': PSS256}


class Puppet:
    """The peer of `conn`."""
    def __init__(self, sx, conn):
        self.sx = sx
        self.conn = conn
        self.side = 'server' if conn.config.side == 'client' else 'client'
        self.schedule = None
        self.reader = self.writer = None       # oracle.Protection
        self.early = b''                       # transcript before the retry
        self.transcript_ = b''
        self.partial = b''
        self.received = []                     # handshake messages [(type, bytes)]
        self.contents = []                     # everything it was sent [(type, bytes, protected)]
        self.records = []                      # [(outer type, body length)]
        self.data = b''
        self.alerts = []                       # [(level, description)]
        self.stage = 'plain'
        self.shared = None
        self.first = None                      # the client hello, parsed
        self.share = None

    # ---------------------------------------------------------------------------- receiving
    def pull(self):
        """Reads what the connection queued; what is new in `contents`."""
        sx = self.sx
        data = self.conn.data_to_send()
        data = bytes(data)
        before = len(self.contents)
        while len(data):
            sx.check(len(data) >= 5, 'torn record')
            n = data[3] * 256 + data[4]
            sx.check(len(data) >= 5 + n, 'torn record')
            self.record(data[0], data[:5], data[5:5 + n])
            data = data[5 + n:]
        return self.contents[before:]

    def record(self, ctype, header, body):
        sx = self.sx
        self.records.append((ctype, len(body)))
        protected = self.reader is not None and ctype != 20
        if protected:
            sx.check(ctype == 23, 'plaintext record once keys are on')
            try:
                inner = self.reader.decrypt(body, header)
            except Exception as exc:  # noqa: BLE001
                sx.fail('a record is not protected with the right key', type(exc).__name__)
            end = len(inner)
            while end > 0 and inner[end - 1] == 0:
                end -= 1
            sx.check(end > 0, 'no content type')
            ctype, body = inner[end - 1], inner[:end - 1]
        self.contents.append((ctype, body, protected))
        if ctype == 22:
            self.partial = self.partial + body
            while len(self.partial) >= 4:
                n = 4 + int.from_bytes(self.partial[1:4], 'big')
                if len(self.partial) < n:
                    break
                msg = self.partial[:n]
                self.partial = self.partial[n:]
                self.received.append((msg[0], msg))
                self.got(msg[0], msg)
        elif ctype == 21:
            sx.check(len(body) == 2, 'an alert is two bytes')
            self.alerts.append((body[0], body[1]))
        elif ctype == 23:
            self.data = self.data + body

    def got(self, msg_type, msg):
        if self.side == 'client':
            # the keys change as the messages go by
            if msg_type == SH and msg[6:38] != HRR_RANDOM:
                self.transcript_ = self.transcript_ + msg
                self.server_hello_received(msg)
                return
            if msg_type == SH:
                suite = int.from_bytes(self.parse_server_hello(msg).suite, 'big')
                self.retry(suite)
        self.transcript_ = self.transcript_ + msg

    # ---------------------------------------------------------------------------- transcript
    def digest(self):
        return oracle.digest(self.schedule.hash, self.transcript_)

    def retry(self, suite):
        """The transcript restarts with the hash of the first client hello."""
        h = oracle.SUITES[suite][0]
        self.transcript_ = handshake(MH, oracle.digest(h, self.transcript_))

    # ------------------------------------------------------------------------------- sending
    def seal(self, ctype, body, padding=0, version=0x0303):
        if self.writer is None:
            return record(ctype, body, version)
        inner = body + u8(ctype) + b'\x00' * padding
        header = u8(23) + u16(version) + u16(len(inner) + self.writer.tag_length)
        return header + self.writer.encrypt(inner, header)

    def deliver(self, data):
        """The exception the connection raised."""
        try:
            self.conn.receive_data(data)
        except Exception as exc:  # noqa: BLE001
            return exc
        return None

    def push(self, ctype, body, **kw):
        return self.deliver(self.seal(ctype, body, **kw))

    def message(self, msg_type, body):
        """A handshake message that enters the transcript, not sent yet."""
        msg = handshake(msg_type, body)
        self.transcript_ = self.transcript_ + msg
        return msg

    def say(self, msg_type, body):
        return self.push(22, self.message(msg_type, body))

    def must(self, exc, what):
        self.sx.check(exc is None, f'{what} is refused', repr(exc))

    # ----------------------------------------------------------------------------------- keys
    def handshake_keys(self, suite, shared):
        self.schedule = oracle.Schedule(suite)
        self.schedule.handshake(shared, self.digest())
        self.hs = {'client': oracle.Protection(self.schedule, self.schedule.c_hs),
                   'server': oracle.Protection(self.schedule, self.schedule.s_hs)}
        self.reader = self.hs['client' if self.side == 'server' else 'server']
        self.writer = self.hs[self.side]
        self.stage = 'handshake'

    def master(self):
        """After the server Finished entered the transcript."""
        self.schedule.master(self.digest())
        self.ap = {'client': oracle.Protection(self.schedule, self.schedule.c_ap),
                   'server': oracle.Protection(self.schedule, self.schedule.s_ap)}

    def application_keys(self, read=True, write=True):
        other = 'client' if self.side == 'server' else 'server'
        if write:
            self.writer = self.ap[self.side]
        if read:
            self.reader = self.ap[other]
        self.stage = 'application'

    def finished_value(self, side=None):
        side = side or self.side
        traffic = self.schedule.c_hs if side == 'client' else self.schedule.s_hs
        return self.schedule.finished(traffic, self.digest())

    # ------------------------------------------------------------------------ as the server
    def parse_client_hello(self, msg):
        n = 39 + msg[38]
        m = n + 2 + int.from_bytes(msg[n:n + 2], 'big')
        suites = msg[n + 2:m]
        exts = parse_extensions(msg[m + 2:])
        return SimpleNamespace(
            random=msg[6:38], session=msg[39:n], exts=dict(exts), order=[t for t, _ in exts],
            suites=[int.from_bytes(suites[i:i + 2], 'big') for i in range(0, len(suites), 2)],
            compression=msg[m:m + 2])

    def hello(self):
        """Takes the (first or second) client hello."""
        n = len(self.received)
        self.pull()
        if len(self.received) != n + 1 or self.received[-1][0] != CH:
            self.sx.fail('the client does not send its hello')
        ch = self.parse_client_hello(self.received[-1][1])
        if self.first is None:
            self.first = ch
        self.latest = ch
        return ch

    def client_share(self, ch, group):
        body = ch.exts[SHARE]
        at = 2
        while at < len(body):
            n = int.from_bytes(body[at + 2:at + 4], 'big')
            if int.from_bytes(body[at:at + 2], 'big') == group:
                return body[at + 4:at + 4 + n]
            at += 4 + n
        return None

    def server_hello(self, suite=0x1301, group=None, random=b'\x5a' * 32, session=None, share=None,
                     exts=None, version=b'\x03\x03', compression=b'\x00'):
        """The body of a ServerHello."""
        ch = self.latest
        if group is None:
            group = int.from_bytes(ch.exts[SHARE][2:4], 'big')
        self.suite, self.group = suite, group
        if share is None:
            self.share = Share(group)
            share = self.share.public
        if exts is None:
            exts = [ext(VERSIONS, b'\x03\x04'), ext(SHARE, u16(group) + vec16(share))]
        session = ch.session if session is None else session
        return (version + random + vec8(session) + u16(suite) + compression
                + extensions(*exts))

    def hello_retry(self, suite=0x1301, group=None, cookie=None, session=None, exts=None):
        ch = self.latest
        if exts is None:
            exts = [ext(VERSIONS, b'\x03\x04')]
            if group is not None:
                exts.append(ext(SHARE, u16(group)))
            if cookie is not None:
                exts.append(ext(COOKIE, vec16(cookie)))
        session = ch.session if session is None else session
        return (b'\x03\x03' + HRR_RANDOM + vec8(session) + u16(suite) + b'\x00'
                + extensions(*exts))

    def say_retry(self, **kw):
        body = self.hello_retry(**kw)
        self.retry(kw.get('suite', 0x1301))
        return self.say(SH, body)

    def say_hello(self, **kw):
        """A ServerHello and the keys after it."""
        body = self.server_hello(**kw)
        exc = self.say(SH, body)
        if exc is None:
            self.pull()
            mine = self.client_share(self.latest, self.group)
            self.handshake_keys(self.suite, self.share.exchange(mine))
        return exc

    def encrypted_extensions(self, *exts):
        return extensions(*exts)

    def certificate(self, *names, exts=()):
        return certificate_message(*[certificate_entry(der(CERT[n]), *(exts if not i else ()))
                                     for i, n in enumerate(names)])

    def certificate_verify(self, key, algorithm=None, context=SERVER_CONTEXT):
        algorithm = ALGORITHM[key] if algorithm is None else algorithm
        return u16(algorithm) + vec16(sign(key, algorithm, context + self.digest()))

    def say_flight(self, key='ed', chain=None, exts=(), upto=None):
        """EncryptedExtensions to Finished; stops before the message `upto`."""
        for msg_type, body in ((EE, lambda: self.encrypted_extensions(*exts)),
                               (CT, lambda: self.certificate(*(chain or [key]))),
                               (CV, lambda: self.certificate_verify(key)),
                               (FIN, lambda: self.finished_value())):
            if msg_type == upto:
                return
            self.must(self.say(msg_type, body()), f'message {msg_type}')
        self.master()
        self.complete()

    def complete(self):
        """Takes the client Finished."""
        want = self.finished_value('client')
        n = len(self.received)
        self.pull()
        self.sx.check(len(self.received) == n + 1 and self.received[-1][0] == FIN,
                      'the client does not send its Finished')
        self.sx.check(self.received[-1][1][4:] == want, 'Finished of the client')
        self.application_keys()

    # ------------------------------------------------------------------------ as the client
    def client_hello(self, suites=(0x1301,), groups=(X25519,), shares=(X25519,), exts=None,
                     extra=(), without=(), random=b'\xa5' * 32, session=b'',
                     sigalgs=(ED25519, ECDSA_P256, ECDSA_P384, PSS256), version=b'\x03\x03',
                     compression=b'\x00', versions=(0x0304,)):
        self.shares = {g: Share(g) for g in shares}
        if exts is None:
            exts = [ext(VERSIONS, vec8(b''.join([u16(v) for v in versions]))),
                    ext(GROUPS, vec16(b''.join([u16(g) for g in groups]))),
                    ext(SIGALGS, vec16(b''.join([u16(g) for g in sigalgs]))),
                    ext(SHARE, vec16(b''.join([u16(g) + vec16(s.public)
                                               for g, s in self.shares.items()])))]
            exts = [e for e in exts if int.from_bytes(e[:2], 'big') not in without]
        return (version + random + vec8(session) + vec16(b''.join([u16(s) for s in suites]))
                + vec8(compression) + extensions(*exts, *extra))

    def parse_server_hello(self, msg):
        n = 39 + msg[38]
        exts = parse_extensions(msg[n + 3:])
        return SimpleNamespace(version=msg[4:6], random=msg[6:38], session=msg[39:n],
                               suite=msg[n:n + 2], compression=msg[n + 2], exts=dict(exts),
                               order=[t for t, _ in exts])

    def server_hello_received(self, msg):
        sh = self.parse_server_hello(msg)
        self.first = sh
        self.group = int.from_bytes(sh.exts[SHARE][:2], 'big')
        self.suite = int.from_bytes(sh.suite, 'big')
        n = int.from_bytes(sh.exts[SHARE][2:4], 'big')
        self.sx.check(len(sh.exts[SHARE]) == 4 + n, 'length of the server share')
        if self.group not in self.shares:
            self.sx.fail('the server picked a group without share')
        self.handshake_keys(self.suite, self.shares[self.group].exchange(sh.exts[SHARE][4:]))

    def flight(self):
        """{type: message} of the encrypted flight of the server, checked up to its Finished."""
        out = {}
        start = len(self.received)
        text = self.transcript_
        self.pull()
        self.after_server = self.transcript_
        for t, msg in self.received[start:]:
            out[t] = msg
        if FIN in out:
            self.transcript_ = self.transcript_[:len(self.transcript_) - len(out[FIN])]
            self.sx.check(out[FIN][4:] == self.finished_value('server'), 'Finished of the server')
            self.transcript_ = self.after_server
            self.master()
            self.reader = self.ap['server']
        del text
        return out

    def finish(self):
        """The client Finished."""
        exc = self.say(FIN, self.finished_value())
        self.application_keys()
        return exc


# ----------------------------------------------------------------------------------------- stages

CLIENT_STAGES = ('wait hello', 'wait second hello', 'wait extensions', 'wait certificate',
                 'wait certificate after request', 'wait verify', 'wait finished', 'connected')
SERVER_STAGES = ('wait hello', 'wait second hello', 'wait finished', 'connected')


def reach_client(sx, where, conf=None, key='ed', chain=None, exts=(), suite=0x1301, hostname=None,
                 ocsp=None):
    """A client in a stage of the handshake, and its puppet server."""
    conf = conf if conf is not None else client_config()
    conn = TLSConnection(conf, server_hostname=hostname, ocsp_service=ocsp)
    p = Puppet(sx, conn)
    if where == 'start':
        return p
    conn.initiate_connection()
    p.hello()
    if where == 'wait hello':
        return p
    if where == 'wait second hello':
        group = [g for g in conf.key_exchanges][1]
        p.must(p.say_retry(suite=suite, group=int(group)), 'the retry')
        p.hello()
        return p
    p.must(p.say_hello(suite=suite), 'the server hello')
    if where == 'wait extensions':
        return p
    if where == 'wait certificate after request':
        p.say_flight(key, chain, exts, upto=CT)
        p.must(p.say(CR, vec8(b'') + extensions(ext(SIGALGS, vec16(u16(ED25519))))), 'the request')
        return p
    upto = {'wait certificate': CT, 'wait verify': CV, 'wait finished': FIN, 'connected': None}
    p.say_flight(key, chain, exts, upto=upto[where])
    if where == 'connected':
        sx.check(conn.is_connected(), 'the client is connected')
    return p


def reach_server(sx, where, conf=None, ocsp=None, **kw):
    """A server in a stage of the handshake, and its puppet client."""
    conf = conf if conf is not None else server_config()
    conn = TLSConnection(conf, ocsp_service=ocsp)
    p = Puppet(sx, conn)
    if where == 'start':
        return p
    conn.initiate_connection()
    if where == 'wait hello':
        return p
    if where == 'wait second hello':
        kw.setdefault('groups', (X25519, P256))
        kw.setdefault('shares', ())
    p.must(p.say(CH, p.client_hello(**kw)), 'the client hello')
    if where == 'wait second hello':
        p.flight()
        sx.check(len(p.received) == 1 and p.received[0][0] == SH
                 and p.received[0][1][6:38] == HRR_RANDOM, 'the server retries')
        return p
    p.flight()
    if where == 'wait finished':
        # the server still writes with the handshake key until it is finished
        p.reader = p.hs['server']
        return p
    p.must(p.finish(), 'the client Finished')
    sx.check(conn.is_connected(), 'the server is connected')
    return p


def reach(sx, side, where, **kw):
    return reach_client(sx, where, **kw) if side == 'client' else reach_server(sx, where, **kw)
