"""K05: key exchange."""
import types

from cryptography.hazmat.primitives.asymmetric import dh, ec, x448, x25519
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

from siotls import TLSError
from siotls.crypto import TLSKeyExchange
from siotls.iana import NamedGroup

from symex.api import case

from harness.world import client_config, connect, deliver, pair, server_config, state

REAL = types.SimpleNamespace(dh=dh)     # `dh` itself gets patched
FUNCS = ('siotls.crypto.key_exchanges:_XMixin.resume', 'siotls.crypto.key_exchanges:_XMixin.init',
         'siotls.crypto.key_exchanges:_SECMixin.resume',
         'siotls.crypto.key_exchanges:_SECMixin.init',
         'siotls.crypto.key_exchanges:_FFDHEMixin.resume',
         'siotls.crypto.key_exchanges:_FFDHEMixin.init',
         'siotls.states.client.wait_server_hello:ClientWaitServerHello._negociate_key_share',
         'siotls.states.server.wait_client_hello:ServerWaitClientHello._negociate_key_share')
SIZE = {'x25519': 32, 'x448': 56, 'secp256r1': 65, 'secp384r1': 97, 'secp521r1': 133,
        'ffdhe2048': 256, 'ffdhe3072': 384, 'ffdhe4096': 512, 'ffdhe6144': 768, 'ffdhe8192': 1024}
P25519 = 2 ** 255 - 19
P448 = 2 ** 448 - 2 ** 224 - 1
LOW25519 = [v.to_bytes(32, 'little') for v in (
    0, 1, P25519 - 1, P25519, P25519 + 1,
    325606250916557431795983626356110631294008115727848805560023387167927233504,
    39382357235489614581723060781553021112529911719440698176882885853963445705823)]
LOW448 = [v.to_bytes(56, 'little') for v in (0, 1, P448 - 1, P448, P448 + 1)]
CURVES = {'secp256r1': ec.SECP256R1, 'secp384r1': ec.SECP384R1, 'secp521r1': ec.SECP521R1}
# RFC 7919, appendix A, through the most compact definition: the low bits follow from e
TOP = {2048: 560316, 3072: 2625351, 4096: 5736041, 6144: 15705020, 8192: 10965728}


def prime(bits):
    """p = 2^b - 2^{b-64} + {[2^{b-130} e] + X} * 2^64 - 1"""
    scale = 1 << (bits + 64)
    e = term = scale
    n = 1
    while term:
        term //= n
        e += term
        n += 1
    top = (e >> (bits + 64 - (bits - 130))) if bits - 130 <= bits + 64 else None
    return (1 << bits) - (1 << (bits - 64)) + ((top + TOP[bits]) << 64) - 1


def give(sx, name, side, share, private=None):
    """Makes the share that one side sends `share`; the other side's key generation is left."""
    cls = TLSKeyExchange[NamedGroup[name]]
    real = cls.init
    turn = []
    def init(*args, **kwargs):
        turn.append(1)
        key, mine = real(*args, **kwargs)
        if (len(turn) == 1) == (side == 'client'):
            return key if private is None else private, share
        return key, mine
    sx.patches._set(cls, 'init', init)


def run(sx, name, side, share):
    """What the other side makes of `share`: (it, its exception)."""
    group = [NamedGroup[name]]
    give(sx, name, side, share)
    c, s = pair(client_config(key_exchanges=group), server_config(key_exchanges=group))
    c.initiate_connection()
    s.initiate_connection()
    exc = deliver(s, c.data_to_send())
    if side == 'client':
        return s, exc
    sx.check(exc is None, 'honest ClientHello refused', exc)
    data = s.data_to_send()
    size = data[3] * 256 + data[4]
    return c, deliver(c, data[:5 + size])    # the ServerHello alone


P = {'secp256r1': 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1,
     'secp384r1': 2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1, 'secp521r1': 2 ** 521 - 1}
B = {'secp256r1': 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
     'secp384r1': 0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
     'secp521r1': 0x051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00}

def on_curve(name, share):
    n = SIZE[name]
    half = (n - 1) // 2
    if len(share) != n or share[0] != 4:
        return False
    x, y = int.from_bytes(share[1:1 + half], 'big'), int.from_bytes(share[1 + half:], 'big')
    p = P[name]
    return x < p and y < p and (y * y - x ** 3 + 3 * x - B[name]) % p == 0


def verdict(sx, conn, exc, valid):
    if exc is not None and isinstance(exc, AssertionError | KeyError):
        raise exc
    went_on = state(conn) not in ('Failed', 'ServerWaitClientHello', 'ClientWaitServerHello')
    if valid is False or (valid is not True and sx.is_true(sx.neg(valid))):
        sx.check(isinstance(exc, TLSError) and hasattr(exc, 'description'),
                 'invalid share not refused with an alert', f'{type(exc).__name__}: {exc}')
        sx.check(state(conn) == 'Failed', 'invalid share and not failed', state(conn))
        sx.reach('refused')
        return False
    if went_on:
        sx.reach('accepted')
    return went_on


@case('K05', params=[{'group': g, 'side': s} for g in ('x25519', 'x448')
                     for s in ('client', 'server')], reach=('refused', 'accepted'),
      functions=FUNCS, bounds='shares of 0, 1, n-1, n, n+1, 2n and 64 bytes, any bytes (small '
      'order points refused as the idealised primitive does, see DESIGN.md)')
def montgomery(sx):
    name = sx.p('group')
    n = SIZE[name]
    share = sx.bytes('share', sx.choice('length', (n, 1, n - 1, n + 1, 2 * n)))
    conn, exc = run(sx, name, sx.p('side'), share)
    if len(share) != n:
        valid = False
    elif name == 'x25519':
        masked = share[:31] + bytes([share[31] & 127])
        valid = sx.neg(sx.any([masked == low for low in LOW25519]))
    else:
        valid = sx.neg(sx.any([share == low for low in LOW448]))
    if not verdict(sx, conn, exc, valid):
        sx.check(len(share) != n or sx.is_true(sx.neg(valid)), 'a valid share is refused', exc)


@case('K05', params=[{'group': g, 'side': s} for g in CURVES for s in ('client', 'server')],
      reach=('refused', 'accepted'), functions=FUNCS,
      bounds='valid, compressed, hybrid, infinite, off-curve, out-of-field and wrongly sized '
             'points and any bytes of the right size (which the idealised primitive only accepts '
             'when they are the encoding of a key of the run)')
def weierstrass(sx):
    name = sx.p('group')
    curve = CURVES[name]()
    n = SIZE[name]
    half = (n - 1) // 2
    key = ec.derive_private_key(0x1234567, curve)
    point = key.public_key().public_bytes(Encoding.X962, PublicFormat.UncompressedPoint)
    x, y = point[1:1 + half], point[1 + half:]
    kind = sx.choice('kind', ('valid', 'compressed', 'hybrid', 'infinity', 'off', 'swapped',
                              'short', 'long', 'big', 'any', 'head', 'short any', 'zero x'))
    if kind == 'compressed':
        share = key.public_key().public_bytes(Encoding.X962, PublicFormat.CompressedPoint)
    else:
        share = {
            'valid': point, 'hybrid': bytes([6 + (y[-1] & 1)]) + x + y, 'infinity': b'\x00',
            'off': b'\x04' + x + y[:-1] + bytes([y[-1] ^ 1]), 'swapped': b'\x04' + y + x,
            'short': point[:-1], 'long': point + b'\x00', 'big': b'\x04' + b'\xff' * (2 * half),
            'zero x': b'\x04' + b'\x00' * (2 * half),
        }.get(kind)
    if kind == 'any':
        share = sx.bytes('share', n)
    elif kind == 'short any':
        share = sx.bytes('share', sx.choice('length', (1, 33, half, half + 1, n - 1, n + 1)))
    elif kind == 'head':
        head = sx.bytes('head', 1)
        sx.assume(head[0] != 4)
        share = head + x + y
    conn, exc = run(sx, name, sx.p('side'), share)
    if kind in ('any', 'head', 'short any'):
        if exc is None:
            sx.check(on_curve(name, sx.concrete(share)), 'accepted a share that is no point')
        else:
            verdict(sx, conn, exc, False)
        return
    valid = on_curve(name, share)
    sx.check(valid == (kind in ('valid',)), 'oracle')
    went_on = verdict(sx, conn, exc, valid)
    if kind == 'valid':
        sx.check(went_on, 'a valid share is refused', exc)


def ffdhe_share(sx, n):
    kind = sx.choice('kind', ('any', 'short', 'long', 'low', 'high', 'padded'))
    p = prime(n * 8)
    if kind in ('any', 'short', 'long', 'padded'):
        size = {'any': n, 'long': n + 1, 'padded': n}.get(kind)
        if size is None:
            size = sx.choice('length', (1, 2, n - 1))
        share = sx.bytes('share', size)
        if size > 2:
            # more leading zeros are the matter of 'low'
            sx.assume(share[0] + share[1] + share[2] != 0)
        return p, (b'\x00' if kind == 'padded' else b'') + share
    if kind == 'low':
        return p, b'\x00' * (n - 2) + sx.bytes('share', 2)
    return p, p.to_bytes(n, 'big')[:-2] + sx.bytes('share', 2)


@case('K05', quick=[{'group': 'ffdhe2048', 'side': s} for s in ('client', 'server')] +
      [{'group': g, 'side': 'client'} for g in ('ffdhe3072',)],
      thorough=[{'group': g, 'side': s} for g in SIZE if g.startswith('ff')
                for s in ('client', 'server')], reach=('refused', 'accepted'), functions=FUNCS,
      bounds='shares of 1, 2, n-1, n, n+1 bytes, any bytes but either at most 3 or at '
             'least n-2 leading zeros')
def finite_field(sx):
    name = sx.p('group')
    n = SIZE[name]
    p, share = ffdhe_share(sx, n)
    conn, exc = run(sx, name, sx.p('side'), share)
    y = int.from_bytes(share, 'big')
    valid = sx.all([len(share) == n, y >= 2, y <= p - 2])
    verdict(sx, conn, exc, valid)


def dh_stub(private):
    """The dh module, its key generation giving `private`."""
    class Numbers:
        def __init__(self, p, g, q=None):
            self.real = REAL.dh.DHParameterNumbers(p, g, q)
        def parameters(self, backend=None):
            return self
        def generate_private_key(self):
            y = pow(self.real.g, private, self.real.p)
            return REAL.dh.DHPrivateNumbers(private, REAL.dh.DHPublicNumbers(y, self.real)).private_key()
    return types.SimpleNamespace(**{**vars(REAL.dh), 'DHParameterNumbers': Numbers})


class SymbolicKey:
    """A private key whose public value is any."""
    def __init__(self, y):
        self.y = y
    def public_key(self):
        return self
    def public_numbers(self):
        return self


@case('K05', quick=[{'group': g} for g in ('ffdhe2048', 'ffdhe3072')],
      thorough=[{'group': g} for g in SIZE if g.startswith('ff')], functions=FUNCS,
      reach=('end',), bounds='any public value of the generated key')
def finite_field_share(sx):
    """The share sent has the length of the prime, whatever the key."""
    name = sx.p('group')
    n = SIZE[name]
    y = sx.int('y', 2, prime(n * 8) - 2)
    class Numbers:
        def __init__(self, p, g, q=None):
            sx.check(p == prime(n * 8) and g == 2 and q in (None, p // 2), 'group of RFC 7919')
        def parameters(self, backend=None):
            return self
        def generate_private_key(self):
            return SymbolicKey(y)
    sx.patches.everywhere(REAL.dh, types.SimpleNamespace(**{**vars(REAL.dh), 'DHParameterNumbers': Numbers}))
    _, share = TLSKeyExchange[NamedGroup[name]].init()
    sx.check(len(share) == n, 'length of the share')
    sx.check(int.from_bytes(share, 'big') == y, 'value of the share')
    sx.reach('end')


@case('K05', quick=[{'group': g} for g in ('ffdhe2048', 'ffdhe3072')],
      thorough=[{'group': g} for g in SIZE if g.startswith('ff')], functions=FUNCS,
      reach=('leading zero share', 'leading zero secret', 'plain'),
      bounds='one pair of keys without, with a leading zero in the share, in the secret')
def finite_field_secret(sx):
    """Both sides compute the secret that plain arithmetic gives, over the whole length."""
    name = sx.p('group')
    n = SIZE[name]
    p = prime(n * 8)
    which = sx.choice('which', ('plain', 'leading zero share', 'leading zero secret'))
    a, b = 2 ** 301 + 7, 2 ** 302 + 9
    if which == 'leading zero share':
        while pow(2, a, p) >> (8 * (n - 1)):
            a += 1
    elif which == 'leading zero secret':
        y = pow(2, a, p)
        while pow(y, b, p) >> (8 * (n - 1)):
            b += 1
    cls = TLSKeyExchange[NamedGroup[name]]
    keys = []
    for x in (a, b):
        sx.patches.everywhere(REAL.dh, dh_stub(x)) if not keys else None
        if keys:
            sx.patches.restore()
            sx.patches.everywhere(REAL.dh, dh_stub(x))
        keys.append(cls.init())
    sx.patches.restore()
    for (key, mine), x in zip(keys, (a, b)):
        sx.check(mine == pow(2, x, p).to_bytes(n, 'big'), 'share')
    want = pow(pow(2, a, p), b, p).to_bytes(n, 'big')
    sx.check(cls.resume(keys[0][0], keys[1][1]) == want, 'secret of one side')
    sx.check(cls.resume(keys[1][0], keys[0][1]) == want, 'secret of the other side')
    sx.reach(which)


@case('K05', quick=[{'group': g} for g in SIZE if g not in ('ffdhe6144', 'ffdhe8192', 'ffdhe4096')],
      thorough=[{'group': g} for g in SIZE], reach=('end',), functions=FUNCS,
      bounds='one handshake per group, any data')
def agree(sx):
    group = [NamedGroup[sx.p('group')]]
    c, s = pair(client_config(key_exchanges=group), server_config(key_exchanges=group))
    connect(c, s)
    data = sx.bytes('data', 5)
    c.send_data(data)
    exc = deliver(s, c.data_to_send())
    sx.check(exc is None, 'data refused', exc)
    sx.check(s.data_to_read() == data, 'data read')
    sx.reach('end')
