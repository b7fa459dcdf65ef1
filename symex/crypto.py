"""
Models of the cryptographic primitives (package `cryptography`), used by the symbolic runs only.

With concrete arguments the real primitive runs.  With symbolic ones it is idealised: an AEAD
decrypts exactly what was encrypted under the same key, nonce and associated data; a signature
verifies exactly if it was made by that key over that message; X25519 refuses exactly the small
order points; certificates and keys are only recognised in the encodings the run itself produced.
Key generation and randomness are deterministic, so that paths can be re-executed.
"""
import hashlib
import warnings
import os
import secrets

from cryptography import x509
from cryptography.exceptions import InvalidSignature, InvalidTag
from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives._asymmetric import AsymmetricPadding
from cryptography.hazmat.primitives.asymmetric import dh, ec, ed448, ed25519, rsa, x448, x25519
from cryptography.hazmat.primitives.ciphers import aead
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

from . import core, models
from .core import Unsupported, apply_term, bytes_eq, freeze, is_concrete, sym_and, sym_or, truth
from .models import CLASS_HOOKS, MODELS, SELF_HOOKS, m_len

warnings.filterwarnings("ignore", message="Diffie-Hellman over finite")

_SEQ = core.SEQ_TYPES


def _tab(name):
    return core.ENG.tables.setdefault(name, [])


def _conc(*xs):
    return all(x is None or (core.to_segs(x) is not None and is_concrete(x)) for x in xs)


def _native(x):
    return None if x is None else core.concrete_bytes(x)


# ------------------------------------------------------------------------------------ randomness

def pseudo_random(n):
    i = core.ENG.counters.get('rnd', 0)
    core.ENG.counters['rnd'] = i + 1
    out = b''
    k = 0
    while len(out) < n:
        out += hashlib.sha256(f'siotls-verif {i} {k}'.encode()).digest()
        k += 1
    return out[:n]

MODELS[secrets.token_bytes] = lambda n=32: pseudo_random(32 if n is None else models.native(n))
MODELS[os.urandom] = lambda n: pseudo_random(models.native(n))


# ------------------------------------------------------------------------------------------ AEAD

class SymAEAD:
    nonce_lengths = range(12, 13)

    def __init__(self, key, tag_length=16):
        self.key = freeze(key)
        self.tag_length = models.native(tag_length)
        if not any(truth(m_len(self.key) == n) for n in self.key_lengths):
            raise ValueError("key size is not valid")
        if is_concrete(self.key):
            self.real_obj = self.make(core.concrete_bytes(self.key))

    def make(self, key):
        return self.real(key)

    def _nonce(self, nonce):
        nonce = freeze(nonce)
        if not any(truth(m_len(nonce) == n) for n in self.nonce_lengths):
            raise ValueError("nonce length is not valid")
        return nonce

    def encrypt(self, nonce, data, associated_data):
        nonce = self._nonce(nonce)
        data = freeze(data)
        ad = b'' if associated_data is None else freeze(associated_data)
        if _conc(self.key, nonce, data, ad):
            ct = self.real_obj.encrypt(_native(nonce), _native(data), _native(ad))
        else:
            tag = apply_term(f'aead-{self.name}-{self.tag_length}', (self.key, nonce, ad, data),
                             self.tag_length, self._real_tag)
            ct = data + tag
        _tab('aead').append((self.name, self.tag_length, self.key, nonce, ad, data, ct))
        core.ENG.tables.setdefault('aead exact', {})[self._exact(nonce, ad, ct)] = data
        return ct

    def _exact(self, nonce, ad, ct):
        return (self.name, self.tag_length, *(core.bytes_key(x) for x in (
            self.key, nonce, ad, ct)))

    def _real_tag(self, *args):
        raise core.EngineError("tag of concrete data")

    def decrypt(self, nonce, data, associated_data):
        nonce = self._nonce(nonce)
        data = freeze(data)
        ad = b'' if associated_data is None else freeze(associated_data)
        if truth(m_len(data) < self.tag_length):
            raise InvalidTag
        if _conc(self.key, nonce, data, ad):
            return self.real_obj.decrypt(_native(nonce), _native(data), _native(ad))
        exact = core.ENG.tables.setdefault('aead exact', {}).get(self._exact(nonce, ad, data))
        if exact is not None:
            return exact
        for name, tlen, key, n, a, pt, ct in _tab('aead'):
            if name != self.name or tlen != self.tag_length:
                continue
            same = bytes_eq(key, self.key)
            if same is not False:
                same = sym_and([same, bytes_eq(n, nonce)])
            if same is False:
                continue
            if truth(same) and truth(bytes_eq(a, ad)) and truth(bytes_eq(ct, data)):
                return pt
        raise InvalidTag

class SymAESGCM(SymAEAD):
    name, real, key_lengths = 'aesgcm', aead.AESGCM, (16, 24, 32)
    nonce_lengths = range(8, 129)

class SymChaCha(SymAEAD):
    name, real, key_lengths = 'chacha', aead.ChaCha20Poly1305, (32,)

class SymAESCCM(SymAEAD):
    name, real, key_lengths = 'aesccm', aead.AESCCM, (16, 24, 32)
    nonce_lengths = range(7, 14)
    def make(self, key):
        return aead.AESCCM(key, tag_length=self.tag_length)

CLASS_HOOKS[aead.AESGCM] = SymAESGCM
CLASS_HOOKS[aead.ChaCha20Poly1305] = SymChaCha
CLASS_HOOKS[aead.AESCCM] = SymAESCCM


# ---------------------------------------------------------------------------------- key exchange

# encodings of points of small order on curve25519 (bit 255 is ignored)
_P25519 = 2 ** 255 - 19
_LOW25519 = [int(v).to_bytes(32, 'little') for v in (
    0, 1, _P25519 - 1, _P25519, _P25519 + 1,
    325606250916557431795983626356110631294008115727848805560023387167927233504,
    39382357235489614581723060781553021112529911719440698176882885853963445705823,
)]
_P448 = 2 ** 448 - 2 ** 224 - 1
_LOW448 = [int(v).to_bytes(56, 'little') for v in (0, 1, _P448 - 1, _P448, _P448 + 1)]


class SymPublic:
    """A public value that is not concrete."""
    def __init__(self, kind, data):
        self.kind, self.data = kind, data

def _x_generate(cls):
    if cls is x25519.X25519PrivateKey or cls is x448.X448PrivateKey:
        n = 32 if cls is x25519.X25519PrivateKey else 56
        key = cls.from_private_bytes(pseudo_random(n))
        _tab('xkeys').append((key, key.public_key().public_bytes_raw()))
        return key
    if cls is ed25519.Ed25519PrivateKey:
        return cls.from_private_bytes(pseudo_random(32))
    if cls is ed448.Ed448PrivateKey:
        return cls.from_private_bytes(pseudo_random(57))
    return None

def hook_generate(s, args, kwargs):
    if isinstance(s, type):
        r = _x_generate(s)
        if r is not None:
            return r
    return NotImplemented
SELF_HOOKS['generate'] = hook_generate

def hook_from_public_bytes(s, args, kwargs):
    if s in (x25519.X25519PublicKey, x448.X448PublicKey) and not is_concrete(args[0]):
        n = 32 if s is x25519.X25519PublicKey else 56
        if not truth(m_len(args[0]) == n):
            raise ValueError(f"public key is {n} bytes long")
        if is_concrete(args[0]):
            return s.from_public_bytes(_native(args[0]))
        return SymPublic('x25519' if n == 32 else 'x448', freeze(args[0]))
    return NotImplemented
SELF_HOOKS['from_public_bytes'] = hook_from_public_bytes

def hook_exchange(s, args, kwargs):
    peer = args[-1]
    if type(peer) is not SymPublic:
        return NotImplemented
    if peer.kind == 'ec':
        return NotImplemented
    if peer.kind == 'dh':
        x = s.private_numbers().x.to_bytes(2048, 'big').lstrip(b'\x00')
        n = (peer.p.bit_length() + 7) // 8
        return apply_term('dh', (x, peer.data.to_bytes(n, 'big')), n, None)
    if peer.kind == 'x25519':
        # RFC 7748: the most significant bit is masked
        data = freeze(peer.data)
        last = data[31]
        masked = data[:31] + core.mkbytes([(core.int_to_item(last & 127),)])
        low = _LOW25519
    else:
        masked, low = peer.data, _LOW448
    if truth(sym_or([bytes_eq(masked, v) for v in low])):
        raise ValueError("Error computing shared key.")
    mine = s.private_bytes_raw()
    for key, pub in _tab('xkeys'):
        if len(pub) == len(low[0]) and truth(bytes_eq(masked, pub)):
            return s.exchange(key.public_key())
    return apply_term(peer.kind, (mine, masked), len(low[0]), None)
SELF_HOOKS['exchange'] = hook_exchange

def gen_ec(curve, backend=None):
    key = ec.derive_private_key(
        int.from_bytes(pseudo_random(curve.key_size // 8 - 1), 'big') + 1, curve)
    _tab('eckeys').append(key.public_key().public_bytes(
        Encoding.X962, PublicFormat.UncompressedPoint))
    return key
MODELS[ec.generate_private_key] = gen_ec

def derive_ec(private_value, curve, backend=None):
    key = ec.derive_private_key(private_value, curve)
    _tab('eckeys').append(key.public_key().public_bytes(Encoding.X962, PublicFormat.UncompressedPoint))
    return key
MODELS[ec.derive_private_key] = derive_ec

def hook_from_encoded_point(s, args, kwargs):
    if len(args) == 2 and not is_concrete(args[1]):
        curve, data = args
        n = (curve.key_size + 7) // 8
        if truth(m_len(data) == 0):
            raise ValueError("data must not be an empty byte string")
        for pub in _tab('eckeys'):
            if len(pub) == 2 * n + 1 and truth(bytes_eq(data, pub)):
                return s.from_encoded_point(curve, pub)
        raise ValueError("Unsupported elliptic curve point type / not on the curve")
    return NotImplemented
SELF_HOOKS['from_encoded_point'] = hook_from_encoded_point

class SymDHPublicNumbers:
    def __init__(self, y, pn):
        self.y, self.parameter_numbers = y, pn
    def public_key(self, backend=None):
        key = SymPublic('dh', self.y)
        key.p = self.parameter_numbers.p
        return key

def dh_public_numbers(y, parameter_numbers):
    if core.is_sym(y):
        return SymDHPublicNumbers(y, parameter_numbers)
    return dh.DHPublicNumbers(y, parameter_numbers)
CLASS_HOOKS[dh.DHPublicNumbers] = dh_public_numbers

def hook_generate_private_key(s, args, kwargs):
    if isinstance(s, dh.DHParameters):
        pn = s.parameter_numbers()
        x = int.from_bytes(pseudo_random(32), 'big')
        y = pow(pn.g, x, pn.p)
        return dh.DHPrivateNumbers(x, dh.DHPublicNumbers(y, pn)).private_key()
    return NotImplemented
SELF_HOOKS['generate_private_key'] = hook_generate_private_key


# ------------------------------------------------------------------------------------ signatures

_PRIV = (ed25519.Ed25519PrivateKey, ed448.Ed448PrivateKey, ec.EllipticCurvePrivateKey,
         rsa.RSAPrivateKey)
_PUB = (ed25519.Ed25519PublicKey, ed448.Ed448PublicKey, ec.EllipticCurvePublicKey,
        rsa.RSAPublicKey)

def spki(key):
    return key.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)

def _params(args):
    out = []
    for i, a in enumerate(args):
        if isinstance(a, ec.ECDSA):
            out.append(f'ecdsa-{a.algorithm.name}')
        elif hasattr(a, '_mgf'):
            salt = getattr(a, '_salt_length', None)
            if not isinstance(salt, int):
                salt = getattr(salt, 'name', None) or type(salt).__name__
                if 'digest' in salt.lower() and i + 1 < len(args):
                    salt = args[i + 1].digest_size
            out.append(f'{a.name}-{a._mgf._algorithm.name}-{salt}')
        else:
            out.append(getattr(a, 'name', str(a)))
    return ' '.join(out)

def hook_sign(s, args, kwargs):
    if not isinstance(s, _PRIV):
        return NotImplemented
    args = list(args) + list(kwargs.values())
    message = freeze(args[0])
    key = spki(s.public_key())
    params = _params(args[1:])
    if is_concrete(message) and isinstance(s, _PRIV[:2]):
        sig = s.sign(_native(message), *args[1:])
    else:
        n = {ed25519.Ed25519PrivateKey: 64, ed448.Ed448PrivateKey: 114}.get(
            next(c for c in _PRIV if isinstance(s, c)), 72)
        if isinstance(s, rsa.RSAPrivateKey):
            n = s.key_size // 8
        sig = core.apply_term('sig-' + params, (key, message), n, lambda k, m: hashlib.shake_256(
            b'sig' + params.encode() + k + m).digest(n))
    _tab('sigs').append((key, params, message, sig))
    return sig
SELF_HOOKS['sign'] = hook_sign

def hook_verify(s, args, kwargs):
    if not isinstance(s, _PUB):
        return NotImplemented
    args = list(args)
    for name in ('signature', 'data'):
        if name in kwargs:
            args.append(kwargs[name])
    args += [v for k, v in kwargs.items() if k not in ('signature', 'data')]
    sig, message = freeze(args[0]), freeze(args[1])
    key = spki(s)
    if (len(args) != (2 if isinstance(s, _PUB[:2]) else
                  3 if isinstance(s, ec.EllipticCurvePublicKey) else 4)
        or isinstance(s, ec.EllipticCurvePublicKey) and not isinstance(args[2], ec.ECDSA)
        or isinstance(s, rsa.RSAPublicKey) and not isinstance(args[2], AsymmetricPadding)):
        # the way the real one refuses
        s.verify(b'', b'', *args[2:])
        raise Unsupported('verification of a signature with unusual arguments')
    params = _params(args[2:])
    for k, p, m, g in _tab('sigs'):
        if k == key and p == params and truth(bytes_eq(m, message)) and truth(bytes_eq(g, sig)):
            return None
    if _conc(sig, message):
        return s.verify(_native(sig), _native(message), *args[2:])
    raise InvalidSignature
SELF_HOOKS['verify'] = hook_verify


# ---------------------------------------------------------------------------- certificates, keys

KNOWN_CERTS = {}     # DER -> certificate, filled by the harness
KNOWN_KEYS = {}

def _load(real, known, what):
    def load(data, backend=None):
        if type(data) not in _SEQ or is_concrete(data):
            return real(_native(data))
        for der, obj in known.items():
            if truth(bytes_eq(data, der)):
                return real(der)
        raise ValueError(f"{what}: malformed DER")
    return load
MODELS[x509.load_der_x509_certificate] = _load(
    x509.load_der_x509_certificate, KNOWN_CERTS, 'certificate')
MODELS[serialization.load_der_public_key] = _load(
    serialization.load_der_public_key, KNOWN_KEYS, 'public key')
