"""The fixed world of the harnesses: keys, certificates, configurations, connection pairs."""
import pathlib
import sys

from cryptography import x509
from cryptography.hazmat.primitives.serialization import (
    Encoding,
    PublicFormat,
    load_der_private_key,
)
from cryptography.x509.verification import Store

from siotls import TLSConfiguration, TLSConnection
from siotls.iana import CipherSuites, ContentType, NamedGroup

from symex.api import Inconclusive

from harness import oracle

DATA = pathlib.Path(__file__).parent / 'data'
HOST = 'server.example'

CERT = {}
KEY = {}
for _path in sorted(DATA.glob('*.crt')):
    CERT[_path.stem] = x509.load_der_x509_certificate(_path.read_bytes())
for _path in sorted(DATA.glob('*.key')):
    KEY[_path.stem] = load_der_private_key(_path.read_bytes(), None)
CRL = x509.load_der_x509_crl((DATA / 'ca.crl').read_bytes())


def der(cert):
    return cert.public_bytes(Encoding.DER)

def spki(key):
    return key.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)


if 'z3' in sys.modules:
    from symex import crypto as _crypto
    for _c in CERT.values():
        _crypto.KNOWN_CERTS[der(_c)] = _c
    for _k in KEY.values():
        _crypto.KNOWN_KEYS[spki(_k.public_key())] = _k.public_key()


def server_config(key='ed', chain=None, **kw):
    chain = [CERT[n] for n in (chain or [key])]
    kw.setdefault('private_key', KEY[key])
    kw.setdefault('certificate_chain', chain)
    return TLSConfiguration('server', **kw)

def client_config(**kw):
    return TLSConfiguration('client', **kw)

def trusting(**kw):
    """A client that verifies the server."""
    return client_config(trust_store=Store([CERT['ca']]), **kw)


def pair(client=None, server=None, hostname=None, ocsp=None):
    c = TLSConnection(client if client is not None else client_config(),
                      server_hostname=hostname, ocsp_service=ocsp)
    s = TLSConnection(server if server is not None else server_config(), ocsp_service=None)
    return c, s

def pump(a, b):
    """Gives what each side queued to the other until both are quiet; the number of deliveries."""
    n = 0
    while True:
        x = a.data_to_send()
        if x:
            n += 1
            b.receive_data(x)
        y = b.data_to_send()
        if y:
            n += 1
            a.receive_data(y)
        if not x and not y:
            return n

def connect(client, server):
    client.initiate_connection()
    server.initiate_connection()
    pump(client, server)
    if not (client.is_connected() and server.is_connected()):
        raise Inconclusive('the handshake of the harness did not complete')

def connected(client=None, server=None, **kw):
    c, s = pair(client, server, **kw)
    connect(c, s)
    return c, s


# ------------------------------------------------------------------------------------- raw bytes

def u8(n):
    return n.to_bytes(1, 'big')

def u16(n):
    return n.to_bytes(2, 'big')

def u24(n):
    return n.to_bytes(3, 'big')

def u32(n):
    return n.to_bytes(4, 'big')

def vec8(b):
    return u8(len(b)) + b

def vec16(b):
    return u16(len(b)) + b

def vec24(b):
    return u24(len(b)) + b

def record(content_type, body, version=0x0303):
    return u8(content_type) + u16(version) + vec16(body)

def handshake(msg_type, body):
    return u8(msg_type) + vec24(body)

def seal(conn, content_type, data, padding=0, version=0x0303):
    """A record protected with the current writing key of `conn`."""
    inner = data + u8(content_type) + b'\x00' * padding
    length = len(inner) + conn._cipher.tag_length
    header = u8(ContentType.APPLICATION_DATA) + u16(version) + u16(length)
    return header + conn._cipher.encrypt(inner, header)

def split_records(data):
    """[(type, version, body)], a remainder that is no full record is returned as (None, .., rest)."""
    out = []
    while len(data) >= 5:
        n = int.from_bytes(data[3:5], 'big')
        if len(data) < 5 + n:
            break
        out.append((data[0], int.from_bytes(data[1:3], 'big'), data[5:5 + n]))
        data = data[5 + n:]
    if data:
        out.append((None, None, data))
    return out

def unseal(peer, data):
    """The contents of the records in `data`, read with the keys of `peer`: [(type, bytes)]."""
    out = []
    for ctype, version, body in split_records(data):
        if ctype is None:
            raise Inconclusive('torn record')
        if ctype == ContentType.APPLICATION_DATA and peer._cipher.must_decrypt:
            header = u8(ctype) + u16(version) + u16(len(body))
            inner = peer._cipher.decrypt(body, header)
            inner = bytes(inner).rstrip(b'\x00')
            out.append((inner[-1], inner[:-1]))
        else:
            out.append((ctype, body))
    return out

ALL_SUITES = (CipherSuites.TLS_AES_128_GCM_SHA256, CipherSuites.TLS_AES_256_GCM_SHA384,
              CipherSuites.TLS_CHACHA20_POLY1305_SHA256)


# ------------------------------------------------------------------------------ sessions, outcomes

def small(octets=512, **kw):
    """A connected pair that negotiated a small fragment length: short records, few bytes."""
    return connected(client_config(max_fragment_length=octets, **kw))


def deliver(conn, data):
    """The exception that receiving `data` raised, None when there was none."""
    try:
        conn.receive_data(data)
    except Exception as exc:  # noqa: BLE001
        return exc
    return None


def state(conn):
    return type(conn._state).__name__


def description(exc):
    """The code of the alert that an error stands for, None when it is no TLS alert."""
    from siotls import TLSError
    if isinstance(exc, TLSError) and hasattr(exc, 'description'):
        return exc.description
    return None


def check_alert(sx, exc, name, label):
    """exc must be the fatal alert called `name`."""
    sx.check(type(exc).__name__ == name, label, f'{type(exc).__name__} instead of {name}: {exc}')
    sx.check(exc.description == oracle.ALERTS[name], f'{label}: its number', exc.description)


def queued_alerts(sx, conn, peer):
    """The (level, description) of the alerts among what `conn` queued, read with peer's keys."""
    out = []
    for ctype, data in unseal(peer, conn.data_to_send()):
        if ctype == ContentType.ALERT:
            sx.check(len(data) == 2, 'an alert is two bytes')
            out.append((data[0], data[1]))
    return out
