"""The key schedule of TLS 1.3, written from RFC 5869, RFC 8446 and RFC 7748: the oracle of the
harnesses.  It shares nothing with the code under test but hashlib and hmac."""
import hashlib
import hmac

from cryptography.hazmat.primitives.ciphers import aead

# RFC 8446 section 6
ALERTS = {
    'CloseNotify': 0, 'UnexpectedMessage': 10, 'BadRecordMac': 20, 'RecordOverflow': 22,
    'HandshakeFailure': 40, 'BadCertificate': 42, 'UnsupportedCertificate': 43,
    'CertificateRevoked': 44, 'CertificateExpired': 45, 'CertificateUnknown': 46,
    'IllegalParameter': 47, 'UnknownCa': 48, 'AccessDenied': 49, 'DecodeError': 50,
    'DecryptError': 51, 'ProtocolVersion': 70, 'InsufficientSecurity': 71, 'InternalError': 80,
    'InappropriateFallback': 86, 'UserCanceled': 90, 'MissingExtension': 109,
    'UnsupportedExtension': 110, 'UnrecognizedName': 112, 'BadCertificateStatusResponse': 113,
    'UnknownPskIdentity': 115, 'CertificateRequired': 116, 'NoApplicationProtocol': 120,
}

# name of the suite -> (hash, cipher, key length, tag length)
SUITES = {
    0x1301: ('sha256', 'gcm', 16, 16),
    0x1302: ('sha384', 'gcm', 32, 16),
    0x1303: ('sha256', 'chacha', 32, 16),
    0x1304: ('sha256', 'ccm', 16, 16),
    0x1305: ('sha256', 'ccm', 16, 8),
}


def size_of(name):
    return {'sha256': 32, 'sha384': 48}[name]


def digest(name, data):
    return hashlib.new(name, data).digest()


def mac(name, key, data):
    return hmac.new(key, data, name).digest()


def extract(name, salt, ikm):
    return mac(name, salt if len(salt) else b'\x00' * size_of(name), ikm)


def expand(name, prk, info, length):
    blocks = []
    t = b''
    while len(blocks) * size_of(name) < length:
        t = mac(name, prk, t + info + bytes([len(blocks) + 1]))
        blocks.append(t)
    return b''.join(blocks)[:length]


def label_info(label, context, length):
    full = b'tls13 ' + label
    return (length.to_bytes(2, 'big') + len(full).to_bytes(1, 'big') + full
            + len(context).to_bytes(1, 'big') + context)


def expand_label(name, secret, label, context, length):
    return expand(name, secret, label_info(label, context, length), length)


def derive(name, secret, label, transcript_hash):
    return expand_label(name, secret, label, transcript_hash, size_of(name))


class Schedule:
    """Every secret of a connection, without pre-shared key by default."""
    def __init__(self, suite, psk=None):
        self.suite = suite
        self.hash, self.kind, self.key_length, self.tag_length = SUITES[suite]
        self.size = size_of(self.hash)
        zeros = b'\x00' * self.size
        self.early_secret = early = extract(self.hash, zeros, zeros if psk is None else psk)
        self.derived = derive(self.hash, early, b'derived', digest(self.hash, b''))

    def early(self, mode, hello_hash):
        h = self.hash
        label = {'external': b'ext binder', 'resume': b'res binder'}[mode]
        self.binder = derive(h, self.early_secret, label, digest(h, b''))
        self.c_e = derive(h, self.early_secret, b'c e traffic', hello_hash)
        self.early_exporter = derive(h, self.early_secret, b'e exp master', hello_hash)

    def handshake(self, shared, hello_hash):
        h = self.hash
        secret = extract(h, self.derived, shared)
        self.c_hs = derive(h, secret, b'c hs traffic', hello_hash)
        self.s_hs = derive(h, secret, b's hs traffic', hello_hash)
        self.derived2 = derive(h, secret, b'derived', digest(h, b''))

    def master(self, server_finished_hash, client_finished_hash=None):
        h = self.hash
        secret = extract(h, self.derived2, b'\x00' * self.size)
        self.c_ap = derive(h, secret, b'c ap traffic', server_finished_hash)
        self.s_ap = derive(h, secret, b's ap traffic', server_finished_hash)
        self.exporter = derive(h, secret, b'exp master', server_finished_hash)
        if client_finished_hash is not None:
            self.resumption = derive(h, secret, b'res master', client_finished_hash)

    def key_iv(self, traffic):
        return (expand_label(self.hash, traffic, b'key', b'', self.key_length),
                expand_label(self.hash, traffic, b'iv', b'', 12))

    def finished(self, traffic, transcript_hash):
        key = expand_label(self.hash, traffic, b'finished', b'', self.size)
        return mac(self.hash, key, transcript_hash)


class Protection:
    """One direction of record protection."""
    def __init__(self, schedule, traffic):
        key, self.iv = schedule.key_iv(traffic)
        self.tag_length = schedule.tag_length
        self.seq = 0
        if schedule.kind == 'gcm':
            self.aead = aead.AESGCM(key)
        elif schedule.kind == 'chacha':
            self.aead = aead.ChaCha20Poly1305(key)
        else:
            self.aead = aead.AESCCM(key, tag_length=schedule.tag_length)

    def nonce(self, seq):
        count = b'\x00' * 4 + seq.to_bytes(8, 'big')
        return bytes([a ^ b for a, b in zip(self.iv, count)])

    def encrypt(self, data, ad, seq=None):
        if seq is None:
            seq, self.seq = self.seq, self.seq + 1
        return self.aead.encrypt(self.nonce(seq), data, ad)

    def decrypt(self, data, ad, seq=None):
        if seq is None:
            seq, self.seq = self.seq, self.seq + 1
        return self.aead.decrypt(self.nonce(seq), data, ad)
