"""W02, W03, W05: the messages, what they look like on the wire and where they may be found.

The wire forms are written from the RFCs (8446, 6066, 6520, 7250, 7301, 7685, 5764)."""
import dataclasses
import inspect
import types
import typing

from siotls import TLSError
from siotls.contents import ApplicationData, ChangeCipherSpec, Content, Heartbeat, alerts
from siotls.contents import handshakes as hs
from siotls.contents.handshakes import certificate as ct
from siotls.contents.handshakes import extensions as x
from siotls.contents.handshakes.extensions.early_data import NewSessionEarlyData
from siotls.iana import (
    AlertDescription, AlertLevel, ALPNProtocol, CertificateType, CipherSuites, ContentType,
    ExtensionType, HandshakeType, HandshakeType_, HeartbeatMessageType, HeartbeatMode,
    MaxFragmentLengthCode, MaxFragmentLengthOctets, NamedGroup, PskKeyExchangeMode,
    SignatureScheme, TLSVersion,
)
from siotls.serial import SerialIO, TLSBufferError

from symex.api import case

from harness import oracle
from harness.idna_model import patch_idna
from harness.puppet import HRR_RANDOM
from harness.world import (
    CERT, KEY, client_config, der, handshake, server_config, spki, u16, u24, u32, u8, vec16, vec24,
    vec8,
)

H = HandshakeType
CH, SH, EE, CT, CR, NST = (H.CLIENT_HELLO, H.SERVER_HELLO, H.ENCRYPTED_EXTENSIONS, H.CERTIFICATE,
                           H.CERTIFICATE_REQUEST, H.NEW_SESSION_TICKET)
HRR = HandshakeType_.HELLO_RETRY_REQUEST
CARRIERS = {'CH': CH, 'SH': SH, 'HRR': HRR, 'EE': EE, 'CT': CT, 'CR': CR, 'NST': NST}

# RFC 8446 section 4.2 (and the RFCs of the extensions), for the extensions the library knows
MAY_CARRY = {
    0: 'CH EE', 1: 'CH EE', 5: 'CH CR CT', 10: 'CH EE', 13: 'CH CR', 14: 'CH EE', 15: 'CH EE',
    16: 'CH EE', 18: 'CH CR CT', 19: 'CH EE', 20: 'CH EE', 21: 'CH', 41: 'CH SH', 42: 'CH EE NST',
    43: 'CH SH HRR', 44: 'CH HRR', 45: 'CH', 47: 'CH CR', 48: 'CR', 49: 'CH', 50: 'CH CR',
    51: 'CH SH HRR',
}
MAY_CARRY = {k: v.split() for k, v in MAY_CARRY.items()}


# ------------------------------------------------------------------- the forms of each extension
# name -> (type, messages, builder); a builder returns (the object, its body on the wire)

SPECS = {}

def spec(name, ext_type, carriers):
    def deco(fn):
        SPECS[name] = (ext_type, carriers.split(), fn)
        return fn
    return deco


def ints(sx, n, lo, hi, label='item'):
    return [sx.int(f'{label} {i}', lo, hi) for i in range(n)]

def some(sx, lo=0, hi=2):
    return sx.choice('count', range(lo, hi + 1))

# the numbers of the RFCs, under the names of the registries
NUMBERS = {
    HeartbeatMode: {'PEER_ALLOWED_TO_SEND': 1, 'PEER_NOT_ALLOWED_TO_SEND': 2},
    HeartbeatMessageType: {'heartbeat_request': 1, 'heartbeat_response': 2},
    PskKeyExchangeMode: {'PSK_KE': 0, 'PSK_DHE_KE': 1},
    CertificateType: {'X509': 0, 'OPENPGP': 1, 'RAW_PUBLIC_KEY': 2, 'CT_1609DOT2': 3},
    NamedGroup: {'secp256r1': 0x17, 'secp384r1': 0x18, 'secp521r1': 0x19, 'x25519': 0x1d,
                 'x448': 0x1e, 'ffdhe2048': 0x100, 'ffdhe3072': 0x101, 'ffdhe4096': 0x102,
                 'ffdhe6144': 0x103, 'ffdhe8192': 0x104},
}

def rfc(member):
    return NUMBERS.get(type(member), {}).get(member.name, int(member))

def j(items):
    return b''.join(items)


@spec('host name', 0, 'CH')
def _(sx):
    name, wire = sx.choice('name', (
        ('siotls.localhost', b'siotls.localhost'), ('a', b'a'),
        ('b\u00fccher.example', b'xn--bcher-kva.example'),
        ('\u4f8b\u3048.jp', b'xn--r8jz45g.jp'), ('x-1.', b'x-1.'),
        ('l' * 63 + '.com', b'l' * 63 + b'.com')))
    return (x.ServerNameListRequest([x.HostName(name)]),
            vec16(b'\0' + vec16(wire)))

@spec('host name text', 0, 'CH')
def _(sx):
    name = sx.bytes('name', sx.choice('size', (1, 3)))
    for c in list(name):
        sx.assume(sx.all([c >= 97, c <= 122]))
    return (x.ServerNameListRequest([x.HostName(name.decode())]), vec16(b'\0' + vec16(name)))

@spec('server name response', 0, 'EE')
def _(sx):
    return x.ServerNameResponse(), b''

@spec('fragment length code', 1, 'CH EE')
def _(sx):
    code = sx.choice('code', list(MaxFragmentLengthCode))
    return x.MaxFragmentLength(code=code), u8({512: 1, 1024: 2, 2048: 3, 4096: 4}[code.to_octets()])

@spec('fragment length octets', 1, 'CH EE')
def _(sx):
    octets, code = sx.choice('octets', ((512, 1), (1024, 2), (2048, 3), (4096, 4)))
    return x.MaxFragmentLength(octets=MaxFragmentLengthOctets(octets)), u8(code)

@spec('status request', 5, 'CH CR')
def _(sx):
    ids = [sx.bytes(f'id {i}', sx.choice(f'size {i}', (1, 3))) for i in range(some(sx))]
    exts = sx.bytes('extensions', sx.choice('size', (0, 2)))
    return (x.OCSPStatusRequest(ids, exts),
            b'\1' + vec16(j(vec16(i) for i in ids)) + vec16(exts))

@spec('status', 5, 'CT')
def _(sx):
    res = sx.bytes('response', sx.choice('size', (1, 4)))
    return x.OCSPStatus(res), b'\1' + vec24(res)

@spec('groups', 10, 'CH EE')
def _(sx):
    groups = ints(sx, some(sx, 1, 3), 0, 0xffff)
    return x.SupportedGroups(groups), vec16(j(u16(g) for g in groups))

@spec('known groups', 10, 'CH EE')
def _(sx):
    group = sx.choice('group', list(NamedGroup))
    return x.SupportedGroups([group]), vec16(u16(rfc(group)))

@spec('signature algorithms', 13, 'CH CR')
def _(sx):
    algos = ints(sx, some(sx, 1, 3), 0, 0xffff)
    return x.SignatureAlgorithms(algos), vec16(j(u16(a) for a in algos))

@spec('certificate signature algorithms', 50, 'CH CR')
def _(sx):
    algos = ints(sx, some(sx, 1, 3), 0, 0xffff)
    return x.SignatureAlgorithmsCert(algos), vec16(j(u16(a) for a in algos))

@spec('srtp', 14, 'CH EE')
def _(sx):
    profiles = [(sx.int('a', 0, 255), sx.int('b', 0, 255)) for i in range(some(sx, 1, 2))]
    mki = sx.bytes('mki', sx.choice('size', (0, 1, 3)))
    return (x.UseSRTP(profiles, mki), vec16(j(u8(a) + u8(b) for a, b in profiles)) + vec8(mki))

@spec('heartbeat', 15, 'CH EE')
def _(sx):
    mode = sx.choice('mode', list(HeartbeatMode))
    return x.Heartbeat(mode), u8(rfc(mode))

@spec('alpn', 16, 'CH EE')
def _(sx):
    names = [sx.text(f'name {i}', sx.choice(f'size {i}', (1, 2))) for i in range(some(sx, 1, 2))]
    for n in names:
        for c in list(n.encode()):
            sx.assume(sx.all([c >= 32, c <= 126]))
    return x.ALPN(names), vec16(j(vec8(n.encode()) for n in names))

@spec('known alpn', 16, 'CH EE')
def _(sx):
    # GREASE values are not text
    name = sx.choice('name', [a for a in ALPNProtocol])
    return x.ALPN([name]), vec16(vec8(str(name.value).encode()))

@spec('timestamp', 18, 'CH CR CT')
def _(sx):
    return x.SignedCertificateTimestamp(), b''

@spec('client certificate types', 19, 'CH')
def _(sx):
    types = ints(sx, some(sx, 1, 2), 0, 255)
    return x.ClientCertificateTypeRequest(types), vec8(j(u8(t) for t in types))

@spec('server certificate types', 20, 'CH')
def _(sx):
    types = ints(sx, some(sx, 1, 2), 0, 255)
    return x.ServerCertificateTypeRequest(types), vec8(j(u8(t) for t in types))

@spec('known certificate types', 20, 'CH')
def _(sx):
    types = sx.choice('types', ([CertificateType.X509], [CertificateType.RAW_PUBLIC_KEY],
                                [CertificateType.RAW_PUBLIC_KEY, CertificateType.X509]))
    return x.ServerCertificateTypeRequest(types), vec8(j(u8(rfc(t)) for t in types))

@spec('client certificate type', 19, 'EE')
def _(sx):
    t = sx.choice('type', list(CertificateType))
    return x.ClientCertificateTypeResponse(t), u8(rfc(t))

@spec('server certificate type', 20, 'EE')
def _(sx):
    t = sx.choice('type', list(CertificateType))
    return x.ServerCertificateTypeResponse(t), u8(rfc(t))

@spec('padding', 21, 'CH')
def _(sx):
    n = sx.choice('size', (0, 1, 7, 300))
    return x.Padding(n), b'\0' * n

@spec('psk', 41, 'CH')
def _(sx):
    ids = [x.PskIdentity(sx.bytes(f'id {i}', sx.choice(f'size {i}', (1, 3))),
                         sx.int(f'age {i}', 0, 2**32 - 1)) for i in range(some(sx, 1, 2))]
    binders = [sx.bytes(f'binder {i}', 32) for i in range(len(ids))]
    return (x.PreSharedKeyRequest(ids, binders),
            vec16(j(vec16(i.identity) + u32(i.obfuscated_ticket_age) for i in ids))
            + vec16(j(vec8(b) for b in binders)))

@spec('psk response', 41, 'SH')
def _(sx):
    n = sx.int('identity', 0, 0xffff)
    return x.PreSharedKeyResponse(n), u16(n)

@spec('early data', 42, 'CH EE')
def _(sx):
    return x.EarlyData(), b''

@spec('early data size', 42, 'NST')
def _(sx):
    n = sx.int('size', 0, 2**32 - 1)
    return NewSessionEarlyData(n), u32(n)

@spec('versions', 43, 'CH')
def _(sx):
    versions = ints(sx, some(sx, 1, 3), 0, 0xffff)
    return x.SupportedVersionsRequest(versions), vec8(j(u16(v) for v in versions))

@spec('version', 43, 'SH HRR')
def _(sx):
    return x.SupportedVersionsResponse(TLSVersion.TLS_1_3), b'\3\4'

@spec('cookie', 44, 'CH HRR')
def _(sx):
    cookie = sx.bytes('cookie', sx.choice('size', (1, 5)))
    return x.Cookie(cookie), vec16(cookie)

@spec('psk modes', 45, 'CH')
def _(sx):
    modes = ints(sx, some(sx, 1, 2), 0, 255)
    return x.PskKeyExchangeModes(modes), vec8(j(u8(m) for m in modes))

@spec('known psk modes', 45, 'CH')
def _(sx):
    modes = list(PskKeyExchangeMode)
    return x.PskKeyExchangeModes(modes), vec8(j(u8(rfc(m)) for m in modes))

@spec('authorities', 47, 'CH CR')
def _(sx):
    names = [sx.bytes(f'name {i}', sx.choice(f'size {i}', (1, 3))) for i in range(some(sx, 1, 2))]
    return x.CertificateAuthorities(names), vec16(j(vec16(n) for n in names))

@spec('oid filters', 48, 'CR')
def _(sx):
    filters = [x.OIDFilter(sx.bytes(f'oid {i}', sx.choice(f'size {i}', (1, 3))),
                           sx.bytes(f'values {i}', sx.choice(f'size {i}', (0, 2))))
               for i in range(some(sx, 0, 2))]
    return (x.OIDFilters(filters), vec16(j(
        vec8(f.certificate_extension_oid) + vec16(f.certificate_extension_values)
        for f in filters)))

@spec('post handshake auth', 49, 'CH')
def _(sx):
    return x.PostHandshakeAuth(), b''

@spec('key shares', 51, 'CH')
def _(sx):
    n = some(sx, 0, 2)
    groups = ints(sx, n, 0, 0xffff, 'group')
    for i in range(n):
        for k in range(i):
            sx.assume(groups[i] != groups[k])
    shares = [sx.bytes(f'share {i}', sx.choice(f'size {i}', (1, 3))) for i in range(n)]
    return (x.KeyShareRequest(dict(zip(groups, shares))),
            vec16(j(u16(g) + vec16(s) for g, s in zip(groups, shares))))

@spec('key share retry', 51, 'HRR')
def _(sx):
    group = sx.choice('group', list(NamedGroup))
    return x.KeyShareRetry(group), u16(rfc(group))

@spec('key share', 51, 'SH')
def _(sx):
    group = sx.int('group', 0, 0xffff)
    share = sx.bytes('share', sx.choice('size', (1, 3)))
    return x.KeyShareResponse(group, share), u16(group) + vec16(share)


# ------------------------------------------------------------------------------------- comparison

def same(sx, a, b):
    """Equality of two messages, in depth, without relying on their __eq__."""
    if isinstance(a, (bytes, bytearray)) or isinstance(b, (bytes, bytearray)):
        return isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)) and a == b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and sx.eq(a, b)
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and sx.eq(a, b)
    if isinstance(a, (list, tuple)):
        return (isinstance(b, (list, tuple)) and len(a) == len(b)
                and sx.all([same(sx, i, k) for i, k in zip(a, b)]))
    if isinstance(a, dict):
        return (isinstance(b, dict) and len(a) == len(b)
                and same(sx, list(a.keys()), list(b.keys()))
                and sx.all([same(sx, i, k) for i, k in zip(a.values(), b.values())]))
    if a is None or b is None:
        return a is b
    if type(a).__name__ != type(b).__name__:
        return False
    if hasattr(a, 'public_bytes_raw') or hasattr(a, 'public_bytes'):
        return sx.eq(a, b)
    va, vb = vars(a), vars(b)
    return same(sx, dict(va), dict(vb))


def wire_ext(name, sx):
    ext_type, carriers, fn = SPECS[name]
    obj, body = fn(sx)
    return obj, u16(ext_type) + vec16(body)

EXT = ('siotls.contents.handshakes.extensions:Extension.parse',
       'siotls.contents.handshakes.extensions:Extension.serialize')

FIXED = ('server name response', 'timestamp', 'early data', 'post handshake auth', 'version')


# ------------------------------------------------------------------------------------------- W02

@case('W02', params=[{'ext': n, 'in': c} for n, s in SPECS.items() for c in s[1]], functions=EXT,
      reach=('end',), bounds='every extension in every message that may carry it; lists of up to 3 '
                             'items, vectors of up to 5 bytes, integers of their whole range')
def extension(sx):
    patch_idna(sx)
    obj, want = wire_ext(sx.p('ext'), sx)
    got = obj.serialize()
    sx.check(got == want, 'the serialised form is the one of the RFC')
    sx.observe('wire', got)
    tail = sx.bytes('tail', 2)
    stream = SerialIO(got + tail)
    back = x.Extension.parse(stream, handshake_type=CARRIERS[sx.p('in')])
    sx.check(stream.read() == tail, 'parsing consumes exactly the extension')
    sx.check(type(back) is type(obj), 'parsed as the same extension', type(back).__name__)
    sx.check(same(sx, obj, back), 'parsed as an equal extension')
    sx.check(obj == back, 'the parsed extension equals the one serialised')
    sx.reach('end')


_LARGE = ('status request', 'status', 'groups', 'signature algorithms', 'srtp', 'alpn',
          'certificate signature algorithms', 'client certificate types', 'server certificate types',
          'psk', 'versions', 'cookie', 'psk modes', 'authorities', 'oid filters', 'key shares',
          'key share')

@case('W02', params=[{'ext': n, 'in': SPECS[n][1][0], 'many': m} for n in _LARGE for m in (True, False)],
      functions=EXT, reach=('end',),
      bounds='extensions of 24 items, or with vectors of every length up to 9000 bytes (255 where '
             'the length is one byte)')
def large_extension(sx):
    obj, want = wire_ext(sx.p('ext'), Large(sx, sx.p('many')))
    got = obj.serialize()
    sx.check(got == want, 'the serialised form is the one of the RFC')
    stream = SerialIO(got + sx.bytes('tail', 1))
    back = x.Extension.parse(stream, handshake_type=CARRIERS[sx.p('in')])
    sx.check(len(stream.read()) == 1, 'parsing consumes exactly the extension')
    sx.check(same(sx, obj, back), 'parsed as an equal extension')
    sx.reach('end')


@case('W02', functions=EXT, reach=('end',), params=[{'in': c} for c in CARRIERS],
      bounds='any unknown type, any data of 0..4 bytes')
def unknown_extension(sx):
    patch_idna(sx)
    ext_type = sx.choice('type', (2, 17, 22, 52, 0x0a0a, 0xff01, 0xffff))
    data = sx.bytes('data', 0, 4)
    stream = SerialIO(u16(ext_type) + vec16(data))
    ext = x.Extension.parse(stream, handshake_type=CARRIERS[sx.p('in')])
    sx.check(stream.read() == b'', 'parsing consumes the extension')
    sx.check(ext.extension_type == ext_type, 'its type')
    sx.check(ext.extension_data == data, 'its data')
    sx.check(ext.serialize() == u16(ext_type) + vec16(data), 'serialised again')
    sx.reach('end')


def nconfig(kind):
    return types.SimpleNamespace(client_certificate_type=kind, server_certificate_type=kind)

def parse_content(content_type, data, kind=CertificateType.X509, side='server'):
    conf = types.SimpleNamespace(side=side, other_side={'client': 'server', 'server': 'client'}[side])
    stream = SerialIO(data)
    content = Content.get_parser(content_type).parse(stream, config=conf, nconfig=nconfig(kind))
    stream.assert_eof()
    return content


class Lite:
    """Chooses the largest of the sizes."""
    def __init__(self, sx):
        self._sx = sx
    def choice(self, name, options):
        return list(options)[-1]
    def __getattr__(self, name):
        return getattr(self._sx, name)


class Large(Lite):
    """Many items (of values no list knows, but for one), or one long vector of any length."""
    SHORT = {'mki': 255, 'oid': 255, 'binder': 255, 'context': 255}
    COUNTS = {'count': 24, 'suites': 60, 'entries': 2}

    def __init__(self, sx, many):
        self._sx = sx
        self._many = many
        self._vectors = 0
        self._known = 0
        self._long = 0 if many else sx.choice('long vector', range(3))

    def choice(self, name, options):
        if name in self.COUNTS:
            return self.COUNTS[name] if self._many else list(options)[min(1, len(options) - 1)]
        return list(options)[-1]

    def int(self, name, lo, hi):
        n = self._sx.int(name, lo, hi)
        self._known += 1
        if self._many and self._known != 3:
            if hi == 0xffff:
                self._sx.assume(self._sx.all([n >= 0x4b00, n <= 0x4fff]))
            elif hi == 0xff:
                self._sx.assume(self._sx.all([n >= 0x70, n <= 0x80]))
        return n

    def text(self, name, *size):
        text = self._sx.text(name, *size)
        self._known += 1
        if self._many and self._known != 3:
            self._sx.assume(self._sx.eq(text[:1], 'z'))
        return text

    def bytes(self, name, *size):
        field = name.split()[0]
        if self._many or field in ('session', 'random') or len(size) != 1 or size[0] == 0:
            return self._sx.bytes(name, *size)
        self._vectors += 1
        if self._vectors != self._long + 1:
            return self._sx.bytes(name, *size)
        return self._sx.blob(name, 1 if field != 'binder' else 32, self.SHORT.get(field, 9000))


def several(sx, carrier, k=2):
    """Objects and wire form of up to k different extensions."""
    if type(sx) is Large:
        names, lite = COMBOS[carrier][-1], sx
    else:
        names = sx.choice('extensions', COMBOS[carrier])
        lite = sx if sx.p('full') else Lite(sx)
    pairs = [wire_ext(n, lite) for n in names]
    return [p[0] for p in pairs], j(p[1] for p in pairs)

COMBOS = {
    'CH': ((), ('versions',), ('groups', 'key shares'), ('psk modes', 'psk')),
    'SH': ((), ('version', 'key share'), ('psk response',)),
    'HRR': ((), ('version', 'key share retry', 'cookie')),
    'EE': ((), ('alpn', 'fragment length code'), ('server certificate type',)),
    'CT': ((), ('status',), ('timestamp',)),
    'CR': (('signature algorithms',), ('signature algorithms', 'authorities', 'oid filters')),
}


def client_hello(sx):
    random = sx.bytes('random', 32)
    session = sx.bytes('session', sx.choice('session size', (0, 1, 32)))
    suites = ints(sx, sx.choice('suites', (1, 2)), 0, 0xffff, 'suite')
    exts, wire = several(sx, 'CH')
    msg = hs.ClientHello(random, suites, exts)
    msg.legacy_session_id = session
    return msg, 1, (b'\3\3' + random + vec8(session) + vec16(j(u16(s) for s in suites))
                    + b'\1\0' + vec16(wire))

def server_hello(sx):
    random = sx.bytes('random', 32)
    sx.assume(random != HRR_RANDOM)
    session = sx.bytes('session', sx.choice('session size', (0, 1, 32)))
    suite = sx.int('suite', 0, 0xffff)
    exts, wire = several(sx, 'SH')
    return (hs.ServerHello(random, session, suite, exts), 2,
            b'\3\3' + random + vec8(session) + u16(suite) + b'\0' + vec16(wire))

def hello_retry(sx):
    session = sx.bytes('session', sx.choice('session size', (0, 1, 32)))
    suite = sx.int('suite', 0, 0xffff)
    exts, wire = several(sx, 'HRR')
    return (hs.HelloRetryRequest(HRR_RANDOM, session, suite, exts), 2,
            b'\3\3' + HRR_RANDOM + vec8(session) + u16(suite) + b'\0' + vec16(wire))

def encrypted_extensions(sx):
    exts, wire = several(sx, 'EE')
    return hs.EncryptedExtensions(exts), 8, vec16(wire)

def certificate_request(sx):
    context = sx.bytes('context', sx.choice('context size', (0, 1, 4)))
    exts, wire = several(sx, 'CR')
    return hs.CertificateRequest(context, exts), 13, vec8(context) + vec16(wire)

def certificate(sx):
    context = sx.bytes('context', sx.choice('context size', (0, 1, 4)))
    entries, wires = [], []
    for i in range(sx.choice('entries', range(3))):
        exts, wire = several(sx, 'CT')
        name = ('ed', 'server')[i]
        if sx.p('kind') == 'raw':
            entries.append(ct.RawPublicKey(CERT[name].public_key(), exts))
            wires.append(vec24(spki(CERT[name].public_key())) + vec16(wire))
        else:
            entries.append(ct.X509(CERT[name], exts))
            wires.append(vec24(der(CERT[name])) + vec16(wire))
    return hs.Certificate(context, entries), 11, vec8(context) + vec24(j(wires))

def certificate_verify(sx):
    algo = sx.int('algorithm', 0, 0xffff)
    sig = sx.bytes('signature', sx.choice('size', (0, 1, 64)))
    return hs.CertificateVerify(algo, sig), 15, u16(algo) + vec16(sig)

def finished(sx):
    data = sx.bytes('data', sx.choice('size', (32, 48)))
    return hs.Finished(data), 20, data

MESSAGES = {'client hello': client_hello, 'server hello': server_hello, 'hello retry': hello_retry,
            'encrypted extensions': encrypted_extensions, 'certificate request': certificate_request,
            'certificate': certificate, 'certificate verify': certificate_verify,
            'finished': finished}
HANDSHAKE = ('siotls.contents.handshakes:Handshake.parse',
             'siotls.contents.handshakes:Handshake.serialize',
             'siotls.contents.handshakes.client_hello:ClientHello.parse_body',
             'siotls.contents.handshakes.server_hello:ServerHello.parse_body',
             'siotls.contents.handshakes.encrypted_extensions:EncryptedExtensions.parse_body',
             'siotls.contents.handshakes.certificate_request:CertificateRequest.parse_body',
             'siotls.contents.handshakes.certificate:Certificate.parse_body',
             'siotls.contents.handshakes.certificate_verify:CertificateVerify.parse_body',
             'siotls.contents.handshakes.finished:Finished.parse_body', *EXT)


_MESSAGES = [{'message': m, **k} for m in MESSAGES for k in (
    ({'kind': 'x509'}, {'kind': 'raw'}) if m == 'certificate' else ({},))]

@case('W02', quick=_MESSAGES, thorough=[{**m, 'full': True} for m in _MESSAGES],
      functions=HANDSHAKE, reach=('end',),
      bounds='every handshake message: any random and session of 0, 1 and 32 bytes, 1..2 suites of '
             'any value, contexts of 0..4 bytes, signatures of 0, 1 and 64 bytes, 0..2 '
             'certificates, combinations of 0..3 extensions')
def message(sx):
    msg, msg_type, body = MESSAGES[sx.p('message')](sx)
    want = handshake(msg_type, body)
    got = msg.serialize()
    sx.check(got == want, 'the serialised form is the one of the RFC')
    kind = CertificateType.RAW_PUBLIC_KEY if sx.p('kind') == 'raw' else CertificateType.X509
    back = parse_content(22, got, kind, sx.choice('side', ('client', 'server')))
    sx.check(type(back) is type(msg), 'parsed as the same message', type(back).__name__)
    sx.check(same(sx, msg, back), 'parsed as an equal message')
    sx.check(msg == back, 'the parsed message equals the one serialised')
    sx.reach('end')


@case('W02', params=[{**m, 'many': k} for m in _MESSAGES for k in (True, False)
                     if m['message'] != 'finished'],
      functions=HANDSHAKE, reach=('end',),
      bounds='messages with 60 suites and extensions of 24 items, or with contexts and signatures of any '
             'length up to 255 and 9000')
def large_message(sx):
    msg, msg_type, body = MESSAGES[sx.p('message')](Large(sx, sx.p('many')))
    want = handshake(msg_type, body)
    got = msg.serialize()
    sx.check(got == want, 'the serialised form is the one of the RFC')
    kind = CertificateType.RAW_PUBLIC_KEY if sx.p('kind') == 'raw' else CertificateType.X509
    back = parse_content(22, got, kind, 'client')
    sx.check(type(back) is type(msg), 'parsed as the same message', type(back).__name__)
    sx.check(same(sx, msg, back), 'parsed as an equal message')
    sx.reach('end')


@case('W02', functions=('siotls.contents.heartbeat:Heartbeat.parse',
                        'siotls.contents.heartbeat:Heartbeat.serialize'), reach=('end',),
      bounds='both types, payload of 0..4 bytes, padding of 0..20 bytes')
def heartbeat(sx):
    kind = sx.choice('type', list(HeartbeatMessageType))
    payload = sx.bytes('payload', sx.choice('size', (0, 1, 4)))
    padding = sx.bytes('padding', sx.choice('padding size', (0, 16, 20)))
    msg = Heartbeat(kind, payload, padding)
    want = u8(rfc(kind)) + vec16(payload) + padding
    got = msg.serialize()
    sx.check(got == want, 'the serialised form is the one of the RFC')
    back = parse_content(24, got)
    sx.check(same(sx, msg, back) and msg == back, 'parsed as an equal message')
    sx.reach('end')


@case('W02', functions=('siotls.contents.alerts:Alert.parse', 'siotls.contents.alerts:Alert.serialize'),
      reach=('end',), bounds='every alert class, either level or its own')
def alert(sx):
    classes = [c for c in vars(alerts).values()
               if isinstance(c, type) and issubclass(c, alerts.Alert) and c is not alerts.Alert]
    cls = sx.choice('class', classes)
    level = sx.choice('level', (None, AlertLevel.WARNING, AlertLevel.FATAL))
    if cls.__name__ == 'UnknownAlert':
        desc = sx.int('description', 0, 255)
        for d in AlertDescription:
            sx.assume(desc != int(d))
        msg = cls(desc, level=level)
    else:
        desc = oracle.ALERTS[cls.__name__]
        msg = cls(level=level)
    want = u8(int(level if level is not None else cls.level)) + u8(desc)
    got = msg.serialize()
    sx.check(got == want, 'the serialised form is the one of the RFC')
    back = parse_content(21, got)
    sx.check(type(back) is cls, 'parsed as the same alert', type(back).__name__)
    sx.check(back.level == msg.level, 'of the same level')
    sx.check(back.description == desc, 'of the same description')
    sx.check(msg == back, 'the parsed alert equals the one serialised')
    sx.reach('end')


@case('W02', functions=('siotls.contents.application_data:ApplicationData.parse',), reach=('end',),
      bounds='any data of 0..40 bytes; change-cipher-spec')
def others(sx):
    data = sx.bytes('data', 0, 4)
    msg = ApplicationData(data)
    sx.check(msg.serialize() == data, 'application data is itself')
    back = parse_content(23, data)
    sx.check(back.content_data == data and msg == back, 'application data parsed')
    ccs = ChangeCipherSpec()
    sx.check(ccs.serialize() == b'\1', 'change-cipher-spec')
    sx.check(parse_content(20, b'\1') == ccs, 'change-cipher-spec parsed')
    sx.reach('end')


# ------------------------------------------------------------------------------------------- W03

REFUSED = (TLSBufferError, alerts.TLSFatalAlert)

def refused(sx, exc, label):
    sx.check(isinstance(exc, REFUSED) and not isinstance(exc, alerts.InternalError),
             f'{label}: refused with something else than an alert or a buffer error',
             f'{type(exc).__name__}: {exc}')


def vectors(body, prefix):
    """The vectors of a list of vectors that is well-formed."""
    out = []
    at = 2
    while at < len(body):
        n = int.from_bytes(body[at:at + prefix], 'big')
        out.append(body[at + prefix:at + prefix + n])
        at += prefix + n
    return out

def canonical(sx, ext_type, body):
    """What is left of an accepted body once what is documented as skipped is gone."""
    if ext_type == 16:
        names = [n for n in vectors(body, 1)
                 if sx.is_true(sx.all([sx.all([c >= 32, c <= 126]) for c in list(n)]))]
        return vec16(j(vec8(n) for n in names))
    if ext_type == 0:
        # the names are case insensitive, and only one of them is kept
        from siotls.contents.handshakes.extensions import server_name
        out = b''
        at = 2
        while at < len(body):
            n = int.from_bytes(body[at + 1:at + 3], 'big')
            name = body[at + 3:at + 3 + n]
            exc, text = sx.attempt(server_name.idna.decode, name)
            if exc is None:
                out = b'\0' + vec16(name.decode('ascii').lower().encode())
            at += 3 + n
        return vec16(out)
    return body


# the longest body tried: (quick, thorough)
SIZES = {0: (7, 10), 1: (3, 3), 5: (7, 10), 10: (7, 10), 13: (7, 10), 14: (7, 10), 15: (3, 3),
         16: (6, 8), 18: (3, 3), 19: (4, 5), 20: (4, 5), 21: (4, 12), 41: (12, 16), 42: (5, 6),
         43: (7, 9), 44: (6, 9), 45: (5, 6), 47: (7, 9), 48: (7, 9), 49: (3, 3), 50: (7, 10),
         51: (8, 12)}

def _w03(tier):
    return [{'type': t, 'in': c, 'size': SIZES[t][tier]} for t in MAY_CARRY for c in MAY_CARRY[t]]

@case(['W03', 'W04'], quick=_w03(0), thorough=_w03(1), functions=EXT,
      bounds='any body of every length up to 3..12 bytes (thorough: 3..16; server_name: 7, thorough 10) of every known '
             'extension in every message that may carry it, with any two bytes behind')
def any_extension(sx):
    patch_idna(sx)
    ext_type = sx.p('type')
    body = sx.bytes('body', 0, sx.p('size'))
    wire = u16(ext_type) + vec16(body)
    tail = sx.bytes('tail', 2)
    stream = SerialIO(wire + tail)
    exc, ext = sx.attempt(x.Extension.parse, stream, handshake_type=CARRIERS[sx.p('in')])
    if exc is not None:
        refused(sx, exc, 'extension')
        return
    sx.check(stream.read() == tail, 'exactly the extension is consumed')
    got = ext.serialize()
    want = u16(ext_type) + vec16(canonical(sx, ext_type, body) if sx.p('in') == 'CH' or ext_type
                                 else body)
    sx.check(got == want, 'the accepted extension means the bytes that were accepted')


LONG = {
    ('responders', 'CH'): (5, b'\1' + vec16(vec16(b'abcdefghijklmnop') * 6) + vec16(b'e' * 90)),
    ('status', 'CT'): (5, b'\1' + vec24(b'r' * 300)),
    ('groups', 'CH'): (10, vec16(b'\0\x1d\x0a\x0a' * 60)),
    ('algorithms', 'CH'): (13, vec16(b'\4\3\x0a\x0a' * 60)),
    ('certificate algorithms', 'CR'): (50, vec16(b'\4\3\x0a\x0a' * 60)),
    ('profiles', 'CH'): (14, vec16(b'\0\1\0\7' * 50) + vec8(b'm' * 60)),
    ('protocols', 'CH'): (16, vec16((vec8(b'h2') + vec8(b'hello' * 8)) * 4)),
    ('client types', 'CH'): (19, vec8(b'\0\2\1\xe0' * 60)),
    ('server types', 'CH'): (20, vec8(b'\0\2\1\xe0' * 60)),
    ('padding', 'CH'): (21, bytes(300)),
    ('keys', 'CH'): (41, vec16((vec16(b'identity' * 4) + b'\0\0\1\0') * 3) + vec16(vec8(b'b' * 32) * 3)),
    ('versions', 'CH'): (43, vec8(b'\3\4\x0a\x0a' * 60)),
    ('cookie', 'CH'): (44, vec16(b'c' * 300)),
    ('cookie', 'HRR'): (44, vec16(b'c' * 300)),
    ('modes', 'CH'): (45, vec8(b'\0\1' * 120)),
    ('authorities', 'CR'): (47, vec16((vec16(b'an authority' * 4) + vec16(b'd')) * 4)),
    ('filters', 'CR'): (48, vec16((vec8(b'oid') + vec16(b'values' * 6)) * 5)),
    ('shares', 'CH'): (51, vec16(b'\0\x1d' + vec16(b's' * 100) + b'\0\x17' + vec16(b't' * 100)
                                + b'\x0a\x0a' + vec16(b'u'))),
    ('share', 'SH'): (51, b'\0\x1d' + vec16(b's' * 300)),
    ('unknown', 'EE'): (0x0a0a, b'v' * 300),
}

@case(['W03', 'W04'], quick=[{'what': f'{a} {b}', 'key': (a, b), 'some': True} for a, b in LONG],
      thorough=[{'what': f'{a} {b}', 'key': (a, b)} for a, b in LONG], functions=EXT,
      reach=('accepted',),
      bounds='a long body (about 200..300 bytes) of every extension that can be long, one byte of it '
             'being any, among the first 20, the last 20 or every seventh (thorough: any)')
def long_bodies(sx):
    key = sx.p('key')
    ext_type, body = LONG[key[0], key[1]]
    places = range(len(body))
    if sx.p('some'):
        places = [at for at in places if at < 20 or at >= len(body) - 20 or at % 7 == 3]
    at = sx.choice('at', places)
    body = body[:at] + sx.bytes('byte', 1) + body[at + 1:]
    wire = u16(ext_type) + vec16(body)
    stream = SerialIO(wire + b'rest')
    exc, ext = sx.attempt(x.Extension.parse, stream, handshake_type=CARRIERS[key[1]])
    if exc is not None:
        refused(sx, exc, 'extension')
        return
    sx.check(stream.read() == b'rest', 'exactly the extension is consumed')
    sx.check(ext.serialize() == u16(ext_type) + vec16(canonical(sx, ext_type, body)),
             'the accepted extension means the bytes that were accepted')
    sx.reach('accepted')


@case(['W03', 'W04'], params=[{'in': c} for c in CARRIERS], functions=EXT,
      bounds='the length announced by any extension of 0..4 bytes')
def announced(sx):
    body = sx.bytes('body', 0, 4)
    ext_type = sx.choice('type', [t for t in (10, 16, 21, 1, 41, 0x0a0a)
                                  if sx.p('in') in MAY_CARRY.get(t, [sx.p('in')])] or [0x0a0a])
    n = sx.int('announced', 0, 0xffff)
    stream = SerialIO(u16(ext_type) + u16(n) + body)
    exc, ext = sx.attempt(x.Extension.parse, stream, handshake_type=CARRIERS[sx.p('in')])
    if exc is not None:
        refused(sx, exc, 'extension')
        return
    sx.check(n <= len(body), 'an extension that is not all there is accepted')
    sx.check(len(stream.read()) == len(body) - n, 'exactly the extension is consumed')
    if ext_type != 16:
        sx.check(ext.serialize() == u16(ext_type) + vec16(body[:n]), 'it means what was accepted')


def check_content(sx, ctype, wire, kind=CertificateType.X509, label='message'):
    exc, msg = sx.attempt(parse_content, ctype, wire, kind)
    if exc is not None:
        refused(sx, exc, label)
        return None
    sx.check(msg.serialize() == wire, f'the accepted {label} means the bytes that were accepted')
    return msg


@case(['W03', 'W04'], quick=[{'type': t, 'size': 7} for t in range(26)],
      thorough=[{'type': t, 'size': 9 if t == 8 else 11} for t in range(26)], functions=HANDSHAKE,
      bounds='every handshake type below 26, any announced length, any body of 0..7 bytes '
             '(thorough: 0..11, EncryptedExtensions 0..9)')
def any_handshake(sx):
    patch_idna(sx)
    n = sx.int('announced', 0, 2**24 - 1)
    body = sx.bytes('body', 0, sx.p('size'))
    # application protocols and host names that are skipped: any_extension
    kind = sx.choice('kind', (CertificateType.X509, CertificateType.RAW_PUBLIC_KEY))
    exc, msg = sx.attempt(parse_content, 22, u8(sx.p('type')) + u24(n) + body, kind)
    if exc is not None:
        refused(sx, exc, 'handshake')
        return
    sx.check(n == len(body), 'a handshake of another length than announced is accepted')
    if sx.p('type') == 8 and len(body) >= 9 and sx.is_true(body[2:4] == b'\0\x10'):
        return      # protocols that are skipped: any_extension
    sx.check(msg.serialize() == handshake(sx.p('type'), body),
             'the accepted handshake means the bytes that were accepted')


def template(sx, which, block):
    """A hello around an extension block."""
    if which == 'CH':
        return 1, b'\3\3' + b'r' * 32 + vec8(b's') + vec16(b'\x13\x01') + b'\1\0' + block
    if which in ('SH', 'HRR'):
        random = b'r' * 32 if which == 'SH' else HRR_RANDOM
        return 2, b'\3\3' + random + vec8(b's') + b'\x13\x01' + b'\0' + block
    if which == 'EE':
        return 8, block
    if which == 'CR':
        # signature algorithms are mandatory
        return 13, vec8(b'c') + block
    return 11, vec8(b'c') + vec24(vec24(der(CERT['ed'])) + block)

BLOCKS = ('CH', 'SH', 'HRR', 'EE', 'CR', 'CT')


@case(['W03', 'W04'], quick=[{'in': b, 'size': 5} for b in BLOCKS],
      thorough=[{'in': b, 'size': 7} for b in BLOCKS], functions=HANDSHAKE, reach=('accepted',),
      bounds='any extension block of any announced length and of 0..5 bytes (thorough: 0..7), of '
             'any types, in every message with extensions, after the mandatory ones')
def block(sx):
    patch_idna(sx)
    first = (u16(13) + vec16(vec16(b'\4\3'))) if sx.p('in') == 'CR' else b''
    some_ = sx.bytes('block', 0, sx.p('size'))
    n = sx.int('announced', 0, 40)
    msg_type, body = template(sx, sx.p('in'), u16(n) + first + some_)
    if sx.p('in') == 'CR' and len(some_) >= 2:
        # duplicates: below
        sx.assume(some_[:2] != b'\0\x0d')
    exc, msg = sx.attempt(parse_content, 22, handshake(msg_type, body))
    if exc is not None:
        refused(sx, exc, 'message')
        return
    sx.check(n == len(first) + len(some_), 'a block of another length than announced is accepted')
    if len(some_) >= 6 and sx.is_true(sx.any([some_[:2] == b'\0\x10', some_[:2] == b'\0\0'])):
        return      # names that are skipped: any_extension
    sx.check(msg.serialize() == handshake(msg_type, body),
             'the accepted message means the bytes that were accepted')
    sx.reach('accepted')


@case(['W03', 'W04'], quick=[{'in': 'CH', 'sizes': (0, 2)}, {'in': 'SH'}],
      thorough=[{'in': 'CH', 'sizes': (0,)}, {'in': 'CH', 'sizes': (1,)}, {'in': 'CH', 'sizes': (2,)},
                {'in': 'CH', 'sizes': (4,)}, {'in': 'SH'}], functions=HANDSHAKE,
      reach=('accepted',),
      bounds='any version, session (0..1 bytes, 0..2 in ServerHello), suites (0 or 2 bytes, '
             'thorough: 0..4), compression methods (0..2 bytes), with any announced lengths')
def hello_fields(sx):
    version = sx.bytes('version', 2)
    random = b'r' * 32
    session = sx.bytes('session', 0, 2 if sx.p('in') == 'SH' else 1)
    ns = sx.int('session length', 0, 255)
    if sx.p('in') == 'CH':
        suites = sx.bytes('suites', sx.choice('size', sx.p('sizes')))
        nc = sx.int('suites length', 0, 0xffff)
        comp = sx.bytes('compression', 0, 2)
        nm = sx.int('compression length', 0, 255)
        body = (version + random + u8(ns) + session + u16(nc) + suites + u8(nm) + comp
                + vec16(b''))
        msg_type = 1
    else:
        suite = sx.bytes('suite', 2)
        comp = sx.bytes('compression', 1)
        body = version + random + u8(ns) + session + suite + comp + vec16(b'')
        msg_type = 2
    msg = check_content(sx, 22, handshake(msg_type, body))
    if msg is not None:
        sx.check(version == b'\3\3', 'a hello of another legacy version is accepted')
        sx.reach('accepted')


DUPLICATES = {
    'CH': ((10, vec16(b'\0\x17'), vec16(b'\0\x1d')), (43, b'\2\3\4', b'\2\3\3'),
           (1, b'\1', b'\2'), (20, b'\1\0', b'\1\2'), (19, b'\1\0', b'\1\2'), (15, b'\1', b'\2'),
           (5, b'\1' + vec16(b'') + vec16(b''), b'\1' + vec16(b'') + vec16(b'x')),
           (51, vec16(b''), vec16(b'\0\x1d\0\1x')), (0x0a0a, b'', b'x'), (21, b'', b'\0'),
           (13, vec16(b'\4\3'), vec16(b'\5\3')), (44, vec16(b'a'), vec16(b'b'))),
    'SH': ((51, b'\0\x1d\0\1x', b'\0\x1d\0\1y'), (41, b'\0\1', b'\0\0'), (0x0a0a, b'', b'x')),
    'HRR': ((51, b'\0\x1d', b'\0\x17'), (44, vec16(b'a'), vec16(b'b')), (0x0a0a, b'', b'x')),
    'EE': ((1, b'\1', b'\2'), (16, vec16(b'\1a'), vec16(b'\1b')), (20, b'\0', b'\2'),
           (19, b'\0', b'\2'), (15, b'\1', b'\2'), (0x0a0a, b'', b'x')),
    'CR': ((13, vec16(b'\4\3'), vec16(b'\5\3')), (47, vec16(vec16(b'a')), vec16(vec16(b'b'))),
           (0x0a0a, b'', b'x')),
    'CT': ((5, b'\1' + vec24(b'a'), b'\1' + vec24(b'b')), (0x0a0a, b'', b'x')),
}

@case(['W03', 'W04'], params=[{'in': b} for b in BLOCKS], functions=HANDSHAKE, reach=('end',),
      bounds='every extension with content twice in every message, of two meanings or repeated, '
             'apart by another extension or not')
def duplicates(sx):
    ext_type, a, b = sx.choice('extension', DUPLICATES[sx.p('in')])
    if sx.bool('repeated'):
        b = a
    if sx.bool('swapped'):
        a, b = b, a
    between = sx.choice('between', (b'', u16(0x1a1a) + vec16(b'')))
    first = b''
    if sx.p('in') == 'CR' and ext_type != 13:
        first = u16(13) + vec16(vec16(b'\4\3'))
    parts = [u16(ext_type) + vec16(a), between, u16(ext_type) + vec16(b)]
    msg_type, body = template(sx, sx.p('in'), vec16(first + j(parts)))
    exc, msg = sx.attempt(parse_content, 22, handshake(msg_type, body))
    if a != b:
        sx.check(exc is not None, 'a duplicate that changes the meaning is accepted', ext_type)
    if exc is not None:
        refused(sx, exc, 'duplicates')
    else:
        # the repeated entry is skipped
        msg_type, body = template(sx, sx.p('in'), vec16(first + j(parts[:2])))
        sx.check(msg.serialize() == handshake(msg_type, body), 'a repeated entry')
    sx.reach('end')


LISTS = {
    'shares': (51, 'CH', 2, lambda sx, i: u16(sx.int(f'group {i}', 0, 0xffff))
               + vec16(sx.bytes(f'share {i}', 0, 2))),
    'names': (0, 'CH', 2, lambda sx, i: u8(sx.int(f'type {i}', 0, 1))
              + vec16(sx.choice(f'name {i}', (b'a.example', b'b.example')))),
    'identities': (41, 'CH', 2, lambda sx, i: vec16(sx.bytes(f'identity {i}', 0, 2))
                   + sx.bytes(f'age {i}', 4)),
    'filters': (48, 'CR', 2, lambda sx, i: vec8(sx.bytes(f'oid {i}', 0, 2))
                + vec16(sx.bytes(f'value {i}', 0, 2))),
    'authorities': (47, 'CR', 2, lambda sx, i: vec16(sx.bytes(f'authority {i}', 0, 3))),
    'groups': (10, 'CH', 2, lambda sx, i: u16(sx.int(f'group {i}', 0, 0xffff))),
    'algorithms': (13, 'CH', 2, lambda sx, i: u16(sx.int(f'algorithm {i}', 0, 0xffff))),
    'versions': (43, 'CH', 1, lambda sx, i: u16(sx.int(f'version {i}', 0, 0xffff))),
    'modes': (45, 'CH', 1, lambda sx, i: u8(sx.int(f'mode {i}', 0, 255))),
    'protocols': (16, 'CH', 2, lambda sx, i: vec8(sx.choice(f'protocol {i}', (b'h2', b'http/1.1', b'x')))),
    'types': (20, 'CH', 1, lambda sx, i: u8(sx.int(f'type {i}', 0, 255))),
}

@case(['W03', 'W04'], params=[{'list': name, 'n': n} for name in LISTS for n in (2, 3)],
      functions=EXT, reach=('accepted',),
      bounds='well-formed lists of 2..3 entries of any identifier and any content of 0..3 bytes')
def entries(sx):
    patch_idna(sx)
    ext_type, carrier, prefix, entry = LISTS[sx.p('list')]
    items = [entry(sx, i) for i in range(sx.p('n'))]
    body = (vec8 if prefix == 1 else vec16)(j(items))
    if sx.p('list') == 'identities':
        body += vec16(vec8(b'b' * 32))
    wire = u16(ext_type) + vec16(body)
    exc, ext = sx.attempt(x.Extension.parse, SerialIO(wire), handshake_type=CARRIERS[carrier])
    if exc is not None:
        refused(sx, exc, 'list')
        return
    kept = []
    for i, item in enumerate(items):
        if not sx.is_true(sx.any([sx.all([len(item) == len(o), item == o]) for o in items[:i]])):
            kept.append(item)
    got = ext.serialize()
    whole = got == wire
    if len(kept) != len(items):
        # the repeated entries may be skipped
        body = (vec8 if prefix == 1 else vec16)(j(kept))
        whole = sx.any([whole, got == u16(ext_type) + vec16(body)])
    sx.check(whole, 'the accepted list means the bytes that were accepted')
    sx.reach('accepted')


@case(['W03', 'W04'], params=[{'kind': 'x509'}, {'kind': 'raw'}], functions=HANDSHAKE,
      reach=('accepted',),
      bounds='any context length, list length, entry length (0..5 off the right ones), extension '
             'block of 0..4 bytes, 1..2 bytes of garbage as certificate')
def certificates(sx):
    kind = CertificateType.RAW_PUBLIC_KEY if sx.p('kind') == 'raw' else CertificateType.X509
    data = sx.choice('certificate', (der(CERT['ed']) if sx.p('kind') == 'x509' else
                                     spki(CERT['ed'].public_key()), b'', sx.bytes('garbage', 1, 2)))
    context = sx.bytes('context', 0, 1)
    exts = sx.bytes('extensions', 0, 4)
    nx = sx.int('extensions length', 0, 9)
    off = sx.int('entry off', -2, 2)
    off2 = sx.int('list off', -2, 2)
    sx.assume(len(data) + off >= 0)
    entry = u24(len(data) + off) + data + u16(nx) + exts
    body = vec8(context) + u24(len(entry) + off2) + entry
    exc, msg = sx.attempt(parse_content, 22, handshake(11, body), kind)
    if exc is not None:
        refused(sx, exc, 'certificate')
        return
    sx.check(sx.all([off == 0, off2 == 0, nx == len(exts)]), 'mismatching lengths are accepted')
    sx.check(msg.serialize() == handshake(11, body),
             'the accepted certificate means the bytes that were accepted')
    sx.reach('accepted')


@case(['W03', 'W04'], params=[{'type': t, 'size': n} for t, n in ((21, 4), (20, 3), (24, 7), (23, 3))],
      functions=('siotls.contents.alerts:Alert.parse', 'siotls.contents.heartbeat:Heartbeat.parse',
                 'siotls.contents.change_cipher_spec:ChangeCipherSpec.parse'), reach=('accepted',),
      bounds='alerts of 0..4 bytes, heartbeats of 0..7, change-cipher-specs of 0..3, of any value')
def content(sx):
    body = sx.bytes('body', 0, sx.p('size'))
    if check_content(sx, sx.p('type'), body, label='content') is not None:
        sx.reach('accepted')


# ------------------------------------------------------------------------------------------- W05

@case('W05', params=[{'in': c} for c in CARRIERS], functions=EXT, reach=('refused', 'kept'),
      bounds='every extension type (16 bits) with any body of 0..3 bytes in every handshake message')
def carriers(sx):
    patch_idna(sx)
    here = [t for t in MAY_CARRY if sx.p('in') in MAY_CARRY[t]]
    ext_type = sx.int('type', 0, 0xffff)
    body = sx.bytes('body', 0, 3)
    wire = u16(ext_type) + vec16(body)
    exc, ext = sx.attempt(x.Extension.parse, SerialIO(wire), handshake_type=CARRIERS[sx.p('in')])
    if sx.is_true(sx.any([ext_type == t for t in MAY_CARRY if t not in here])):
        sx.check(isinstance(exc, alerts.IllegalParameter),
                 'a known extension out of its messages', f'{ext_type} {type(exc).__name__} {exc}')
        sx.reach('refused')
    elif sx.is_true(sx.neg(sx.any([ext_type == t for t in MAY_CARRY]))):
        sx.check(exc is None, 'an unknown extension is refused', repr(exc))
        sx.check(ext.extension_type == ext_type and ext.extension_data == body,
                 'an unknown extension is kept opaque')
        sx.check(ext.serialize() == wire, 'an unknown extension serialises as it came')
        sx.reach('kept')
    elif exc is not None:
        sx.check(not isinstance(exc, alerts.IllegalParameter) or len(body) > 0,
                 'a known extension in its message', f'{ext_type} {exc}')


@case('W05', params=[{'in': b} for b in BLOCKS], functions=HANDSHAKE, reach=('refused', 'kept'),
      bounds='an extension of any type with any body of 0..1 bytes in whole handshake messages')
def in_messages(sx):
    patch_idna(sx)
    here = [t for t in MAY_CARRY if sx.p('in') in MAY_CARRY[t]]
    first = (u16(13) + vec16(vec16(b'\4\3'))) if sx.p('in') == 'CR' else b''
    ext_type = sx.int('type', 0, 0xffff)
    sx.assume(ext_type != 13)
    ext = u16(ext_type) + vec16(sx.bytes('body', 0, 1))
    after = u16(0x2a2a) + vec16(b'')
    sx.assume(ext_type != 0x2a2a)
    msg_type, body = template(sx, sx.p('in'), vec16(first + ext + after))
    exc, msg = sx.attempt(parse_content, 22, handshake(msg_type, body))
    if sx.is_true(sx.any([ext_type == t for t in MAY_CARRY if t not in here])):
        sx.check(isinstance(exc, alerts.IllegalParameter),
                 'a known extension out of its messages', f'{ext_type} {type(exc).__name__} {exc}')
        sx.reach('refused')
    elif sx.is_true(sx.neg(sx.any([ext_type == t for t in MAY_CARRY]))):
        sx.check(exc is None, 'an unknown extension is refused', repr(exc))
        sx.reach('kept')


def outcome(sx, wire, where):
    exc, ext = sx.attempt(x.Extension.parse, SerialIO(wire), handshake_type=where)
    if exc is not None:
        return (type(exc).__name__, None)
    return (type(ext).__name__, ext.serialize())

@case('W05', params=[{'first': c, 'second': d} for c in ('CH', 'SH', 'EE') for d in ('CH', 'SH', 'EE')],
      functions=EXT, reach=('end',),
      bounds='two extensions of any type out of 12, with bodies of 0..2 bytes, in any two messages, '
             'parsed alone and one after the other')
def independent(sx):
    """What was received before changes nothing."""
    types_ = (0, 1, 10, 13, 16, 21, 41, 42, 44, 51, 0x0a0a, 0x2b2b)
    a = u16(sx.choice('a', types_)) + vec16(b'\0')
    b = u16(sx.choice('b', types_)) + vec16(sx.bytes('body', 0, 2))
    before = outcome(sx, b, CARRIERS[sx.p('second')])
    outcome(sx, a, CARRIERS[sx.p('first')])
    after = outcome(sx, b, CARRIERS[sx.p('second')])
    sx.check(before[0] == after[0], 'parsed in another way afterwards', f'{before[0]} {after[0]}')
    sx.check(same(sx, before[1], after[1]), 'means something else afterwards')
    sx.reach('end')
