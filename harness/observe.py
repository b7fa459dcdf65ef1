"""A passive observer of a connection that knows the key exchange's result: it checks the whole
exchange against the oracle of the key schedule, from the bytes on the wire alone."""
from siotls.crypto import TLSKeyExchange
from siotls.iana import ContentType, HandshakeType, NamedGroup

from symex.api import Inconclusive

from harness import oracle
from harness.world import handshake, u16, u24, u8

HRR_RANDOM = bytes.fromhex('CF21AD74E59A6111BE1D8C021E65B891C2A211167ABB8C5E079E09E2C8A8339C')


class Observer:
    def __init__(self, sx, groups=tuple(NamedGroup)):
        self.sx = sx
        self.wire = {'client': b'', 'server': b''}
        self.partial = {'client': b'', 'server': b''}
        self.protection = {'client': None, 'server': None}
        self.stage = {'client': 'plain', 'server': 'plain'}
        self.messages = []             # [(side, type, bytes)]
        self.data = {'client': b'', 'server': b''}
        self.alerts = []
        self.shared = []
        self.schedule = None
        self.before = b''              # of the transcript, set by a retry
        self.hashed = []
        self.retries = 0
        self.handshake_hash = self.application_hash = None
        for group in groups:
            try:
                cls = TLSKeyExchange[group]
            except KeyError:
                continue
            sx.patches._set(cls, 'resume', self._capture(cls.resume))

    def _capture(self, resume):
        def wrapper(*args, **kwargs):
            shared = resume(*args, **kwargs)
            self.shared.append(shared)
            return shared
        return wrapper

    # --------------------------------------------------------------- transcript
    def transcript(self):
        return self.before + b''.join(self.hashed)

    def digest(self):
        return oracle.digest(self.schedule.hash, self.transcript())

    # ------------------------------------------------------------------ the wire
    def feed(self, side, data):
        sx = self.sx
        buf = self.wire[side] + data
        while len(buf) >= 5:
            n = buf[3] * 256 + buf[4]
            if len(buf) < 5 + n:
                break
            self.record(side, buf[0], buf[:5], buf[5:5 + n])
            buf = buf[5 + n:]
        self.wire[side] = buf
        sx.check(len(buf) == 0, 'torn record on the wire')

    def record(self, side, ctype, header, body):
        sx = self.sx
        prot = self.protection[side]
        if prot is not None and ctype != ContentType.CHANGE_CIPHER_SPEC:
            sx.check(ctype == ContentType.APPLICATION_DATA, 'plaintext record once keys are on')
            try:
                inner = prot.decrypt(body, header)
            except Exception as exc:  # noqa: BLE001
                sx.fail(f'{side} {self.stage[side]} keys are not those of RFC 8446',
                        type(exc).__name__)
            end = len(inner)
            while end > 0 and inner[end - 1] == 0:
                end -= 1
            sx.check(end > 0, 'content type')
            ctype, body = inner[end - 1], inner[:end - 1]
        if ctype == ContentType.HANDSHAKE:
            buf = self.partial[side] + body
            while len(buf) >= 4:
                n = buf[1] * 65536 + buf[2] * 256 + buf[3]
                if len(buf) < 4 + n:
                    break
                self.message(side, buf[0], buf[:4 + n])
                buf = buf[4 + n:]
            self.partial[side] = buf
        elif ctype == ContentType.APPLICATION_DATA:
            sx.check(self.stage[side] == 'application', 'application data before its keys')
            self.data[side] += body
        elif ctype == ContentType.ALERT:
            self.alerts.append((side, body))

    def message(self, side, msg_type, data):
        sx = self.sx
        n = self.messages
        n.append((side, msg_type, data))
        if msg_type == HandshakeType.SERVER_HELLO:
            suite = int.from_bytes(data[4 + 2 + 32 + 1 + data[38]:][:2], 'big')
            if self.schedule is None:
                self.schedule = oracle.Schedule(suite)
            sx.check(self.schedule.suite == suite, 'the cipher suite changed after the retry')
            if data[6:38] == HRR_RANDOM:
                self.retries += 1
                first = oracle.digest(self.schedule.hash, self.transcript())
                self.before = handshake(HandshakeType.MESSAGE_HASH, first)
                self.hashed = [data]
                return
            self.hashed.append(data)
            if not self.shared:
                raise Inconclusive('the key exchange was not observed')
            for other in self.shared[1:]:
                sx.check(other == self.shared[0], 'both sides compute the same shared secret')
            self.handshake_hash = self.digest()
            self.schedule.handshake(self.shared[0], self.handshake_hash)
            self.protection = {
                'client': oracle.Protection(self.schedule, self.schedule.c_hs),
                'server': oracle.Protection(self.schedule, self.schedule.s_hs)}
            self.stage = {'client': 'handshake', 'server': 'handshake'}
            return
        if msg_type == HandshakeType.FINISHED:
            traffic = self.schedule.s_hs if side == 'server' else self.schedule.c_hs
            sx.check(data[4:] == self.schedule.finished(traffic, self.digest()),
                     f'Finished of the {side} covers the transcript')
            self.hashed.append(data)
            if side == 'server':
                self.application_hash = self.digest()
                self.schedule.master(self.application_hash)
                self.protection['server'] = oracle.Protection(self.schedule, self.schedule.s_ap)
            else:
                self.schedule.master(self.application_hash, self.digest())
                self.protection['client'] = oracle.Protection(self.schedule, self.schedule.c_ap)
            self.stage[side] = 'application'
            return
        self.hashed.append(data)

    # ------------------------------------------------------------------ driving
    def pump(self, client, server, limit=20):
        """Passes everything both queue, observed, until both are quiet."""
        for _ in range(limit):
            x = client.data_to_send()
            if len(x):
                self.feed('client', bytes(x) if type(x) is bytearray else x)
                server.receive_data(x)
            y = server.data_to_send()
            if len(y):
                self.feed('server', bytes(y) if type(y) is bytearray else y)
                client.receive_data(y)
            if not len(x) and not len(y):
                return
        self.sx.fail('the handshake does not end')

    def types(self):
        return [(side, int(t)) for side, t, _ in self.messages]
