"""A04: the socket wrapper, between real connections, over a socket that does as it pleases."""
from siotls import TLSError
from siotls.iana import MaxFragmentLengthOctets as Octets

from symex.api import Inconclusive, case

from harness.world import client_config, connect, pair, record, server_config

WRAPPER = tuple(f'siotls.wrapper:WrappedSocket.{n}' for n in (
    '__enter__', '__exit__', 'do_handhskake', 'read', 'write', 'close'))


class Wire:
    """A blocking stream socket.  Each write may take only a part of the data, each read returns a
    part of what there is; it ends wherever it is told to."""
    def __init__(self, peer=None, takes=(), gives=(), end=None):
        self.peer = peer               # the connection on the other side
        self.takes = list(takes)       # for the next writes: how much of that length to take
        self.gives = list(gives)       # for the next reads: how much of what there is
        self.end = end                 # after how many reads comes the end of the stream
        self.reads = 0
        self.sent = b''                # everything that was taken
        self.given = b''
        self.waiting = b''             # what the peer sent
        self.partial = 0
        self.ended = False
        self.ends = 0
        self.closed = False
        self.dry = False               # the stream ends once everything was read

    def put(self, data):
        self.waiting = self.waiting + data

    def take(self, data):
        self.sent = self.sent + data
        if self.peer is not None and len(data):
            try:
                self.peer.receive_data(data)
            finally:
                self.collect()

    def collect(self):
        out = self.peer.data_to_send()
        if len(out):
            self.put(bytes(out) if type(out) is bytearray else out)

    def send(self, data, flags=0):
        if self.closed:
            raise OSError("send on a closed socket")
        n = len(data)
        k = self.takes.pop(0)(n) if self.takes and n else n
        if k < n:
            self.partial += 1
        self.take(data[:k])
        return k

    def sendall(self, data, flags=0):
        # the socket itself goes on until everything is taken
        if self.closed:
            raise OSError("send on a closed socket")
        self.take(data)

    def recv(self, size, flags=0):
        if self.closed:
            raise OSError("recv on a closed socket")
        if size <= 0:
            raise Inconclusive('an empty read')
        self.reads += 1
        n = min(len(self.waiting), size)
        if self.ended or self.end is not None and self.reads > self.end:
            return self.eof()
        if not n:
            if self.dry:
                return self.eof()
            raise Stuck
        k = self.gives.pop(0)(n) if self.gives else n
        out, self.waiting = self.waiting[:k], self.waiting[k:]
        self.given = self.given + out
        return out

    def eof(self):
        self.ended = True
        self.ends += 1
        if self.ends > 40:
            raise Stuck         # whoever reads on will never stop
        return b''

    def recv_into(self, buffer, nbytes=0, flags=0):
        out = self.recv(nbytes or len(buffer))
        buffer[:len(out)] = out
        return len(out)

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True


class Stuck(Exception):
    """A blocking read that nothing would ever end."""


def part(sx, name):
    """A part of the data: all of it, its first bytes, half of it, all but the last byte; or any
    part of a few bytes."""
    def some(n):
        if n <= (600 if sx.p('fine', False) else 40):
            return sx.int(name, 1, n)
        return sx.choice(name, (n, 1, 4, 5, 6, n // 2, n - 1))
    return some


def handshake(sx, wrapped, wire):
    """The outcome of the handshake: None, or the error."""
    exc, _ = sx.attempt(wrapped.__enter__)
    if isinstance(exc, Stuck):
        sx.fail('the handshake waits for bytes that are not to come')
    return exc


@case('A04', params=[{'side': s, 'what': w} for s in ('client', 'server')
                     for w in ('takes', 'gives', 'end')],
      functions=WRAPPER[:3], reach=('connected',),
      bounds='one of the first 2 writes taken in part, one of the first 3 reads given in part (1, '
             '4..6 bytes, half or all but one, and the next one too), or the end of the stream after any number of reads')
def handshakes(sx):
    side, what = sx.p('side'), sx.p('what')
    c, s = pair()
    me, peer = (c, s) if side == 'client' else (s, c)
    peer.initiate_connection()
    wire = Wire(peer)
    wire.collect()
    if what == 'takes':
        at = sx.choice('write', (0, 1))
        wire.takes = [lambda n: n] * at + [part(sx, 'taken'), part(sx, 'then')]
    if what == 'gives':
        at = sx.choice('read', (0, 1, 2))
        wire.gives = [lambda n: n] * at + [part(sx, 'given'), part(sx, 'then')]
    if what == 'end':
        wire.gives = [part(sx, f'given {i}') for i in range(2)]
        wire.end = sx.choice('reads', (0, 1, 2, 3, 4))
    wrapped = me.wrap(wire)
    exc = handshake(sx, wrapped, wire)
    if wire.ended:
        sx.check(exc is not None, 'a handshake cut short by the peer is not an error')
        sx.check(not isinstance(exc, (AttributeError, TypeError, NameError)),
                 'a handshake cut short', repr(exc))
        sx.check(not me.is_connected(), 'connected by a handshake cut short')
        exc, got = sx.attempt(wrapped.write, b'data')
        sx.check(exc is not None, 'data written without a handshake')
        exc, got = sx.attempt(wrapped.read)
        sx.check(exc is not None or len(got) == 0, 'data read without a handshake')
        sx.reach('cut short')
        return
    sx.check(exc is None, 'the handshake failed', repr(exc))
    sx.check(me.is_connected() and peer.is_connected(), 'both sides are connected')
    sx.check(not len(me.data_to_send()), 'something was not handed to the socket')
    x = sx.bytes('data', 3)
    exc, _ = sx.attempt(wrapped.write, x)
    sx.check(exc is None, 'the data is refused', repr(exc))
    sx.check(peer.data_to_read() == x, 'what the peer reads')
    sx.reach('connected')


def established(sx, side, wire):
    c, s = pair(client_config(max_fragment_length=Octets.MAX_512))
    connect(c, s)
    me, peer = (c, s) if side == 'client' else (s, c)
    return me.wrap(wire), me, peer


@case('A04', params=[{'side': s, 'writes': n} for s in ('client', 'server') for n in (1, 2)],
      thorough=[{'side': s, 'writes': n} for s in ('client', 'server') for n in (1, 2, 3)],
      functions=WRAPPER[3:], reach=('whole',),
      bounds='1..2 writes (thorough: 3) of any data of 0..3 bytes, or of 1100 more; the socket takes '
             'the first 1, 4..6 bytes, half or all but one of each of the first writes')
def writes(sx):
    wire = Wire(takes=[part(sx, f'taken {i}') for i in range(sx.p('writes') + 1)])
    wrapped, me, peer = established(sx, sx.p('side'), wire)
    want = b''
    for i in range(sx.p('writes')):
        data = sx.bytes(f'data {i}', 0, 3)
        if sx.bool(f'large {i}'):
            data = data + b'\x5a' * 1100
        exc, _ = sx.attempt(wrapped.write, data)
        sx.check(exc is None, 'a write is refused', repr(exc))
        want = want + data
        sx.check(not len(me.data_to_send()), 'something was not handed to the socket')
    sent = wire.sent
    if len(sent):
        peer.receive_data(sent)
    sx.check(peer.data_to_read() == want, 'the peer gets everything once and in order')
    exc, _ = sx.attempt(wrapped.close)
    sx.check(exc is None, 'close fails', repr(exc))
    rest = wire.sent[len(sent):]
    sx.check(len(rest) > 0, 'the close is not announced')
    peer.receive_data(rest)
    sx.check(not peer.is_connected(), 'the peer does not know about the end')
    sx.check(len(peer.data_to_read()) == 0, 'data after the end')
    exc, _ = sx.attempt(wrapped.close)
    sx.check(exc is None and len(wire.sent) == len(sent) + len(rest), 'a second close', repr(exc))
    sx.reach('partial' if wire.partial else 'whole')


@case('A04', quick=[{'side': s, 'end': e} for s in ('client', 'server')
                     for e in ('stream', 'notify', 'fatal', 'heartbeat', 'early')],
      thorough=[{'side': s, 'end': e, 'fine': f} for s in ('client', 'server') for f in (0, 1)
                for e in ('stream', 'notify', 'fatal', 'heartbeat', 'early')],
      functions=WRAPPER[3:4], reach=('end',),
      bounds='2 messages of the peer of any 1..3 bytes, then the end of the stream, a close_notify, '
             'a spoiled record, or a heartbeat request and the end, or the end in the middle; the '
             'reads return the first 1, 4..6 bytes, half, all or all but one of what there is (twice); '
             'a write may be taken in part; thorough: any part of up to 600 bytes, once')
def reads(sx):
    end = sx.p('end')
    wire = Wire(gives=[part(sx, f'given {i}') for i in range(1 if sx.p('fine', 0) else 2)],
                takes=[part(sx, 'taken')])
    wrapped, me, peer = established(sx, sx.p('side'), wire)
    want = b''
    for i in range(2):
        data = sx.bytes(f'data {i}', 1, 3 if end == 'stream' else 1)
        peer.send_data(data)
        want = want + data
    wire.put(peer.data_to_send())
    if end == 'notify':
        peer.close_sending_end()
        wire.put(peer.data_to_send())
    if end == 'fatal':
        wire.put(record(23, b'\0' * 60))
    if end == 'heartbeat':
        _heartbeat(peer)
        wire.put(peer.data_to_send())
    if end == 'early':
        cut = sx.choice('cut', (1, 4, 5, 6, 20))
        whole = len(wire.waiting)
        wire.waiting = wire.waiting[:whole - cut]
        want = want[:1]
    got = b''
    wire.dry = True
    for _ in range(8):
        exc, data = sx.attempt(wrapped.read)
        if exc is not None or not len(data):
            break
        got = got + data
    else:
        sx.fail('the end of the stream is not reported')
    sx.check(not isinstance(exc, Stuck), 'reads more than there is')
    if end == 'fatal':
        sx.check(isinstance(exc, TLSError), 'a spoiled record is read', repr(exc))
        if len(wire.sent):
            try:
                peer.receive_data(wire.sent)
            except TLSError as alert:
                sx.check('mac' in type(alert).__name__.lower(), 'the alert', repr(alert))
            sx.check(not peer.is_connected(), 'the peer does not know about the failure')
        else:
            sx.fail('the alert is not handed to the socket')
        sx.check(not len(me.data_to_send()), 'a part of the alert is not handed to the socket')
        exc, data = sx.attempt(wrapped.read)
        if exc is None:
            got = got + data
        sx.check(got == want, 'what was read before the failure')
        sx.reach('end')
        return
    sx.check(exc is None, 'the read fails', repr(exc))
    sx.check(got == want, 'what was read is what the peer sent')
    if end == 'heartbeat':
        sx.check(len(wire.sent) > 0, 'the answer to a heartbeat is not handed to the socket')
        exc, _ = sx.attempt(peer.receive_data, wire.sent)
        sx.check(exc is None, 'the answer to a heartbeat', repr(exc))
    exc, data = sx.attempt(wrapped.read)
    sx.check(exc is None and len(data) == 0, 'a read after the end', repr(exc))
    if end == 'notify':
        # the other direction is still open
        before = len(wire.sent)
        exc, _ = sx.attempt(wrapped.write, b'bye')
        sx.check(exc is None, 'a write after the end of the other direction', repr(exc))
        peer.receive_data(wire.sent[before:])
        sx.check(peer.data_to_read() == b'bye', 'what the peer reads after its end')
    sx.reach('end')


def _heartbeat(peer):
    from siotls.contents import Heartbeat
    from siotls.iana import HeartbeatMessageType
    peer._send_content(Heartbeat(HeartbeatMessageType.heartbeat_request, b'x', b'\0' * 16))


@case('A04', params=[{'side': s} for s in ('client', 'server')], functions=WRAPPER,
      reach=('failed', 'left'),
      bounds='a peer whose first bytes are any 1..6 bytes, then the end; a block left by an error '
             'or not')
def blocks(sx):
    side = sx.p('side')
    c, s = pair(client_config(), server_config())
    me, peer = (c, s) if side == 'client' else (s, c)
    if sx.bool('hostile'):
        wire = Wire(gives=[part(sx, 'given')], takes=[part(sx, 'taken')])
        wire.put(sx.bytes('first', 1, 6))
        wire.dry = True
        exc = handshake(sx, me.wrap(wire), wire)
        sx.check(exc is not None, 'a handshake out of nothing')
        sx.check(not me.is_connected(), 'connected out of nothing')
        sx.check(not len(me.data_to_send()), 'the alert is not handed to the socket')
        sx.reach('failed')
        return
    peer.initiate_connection()
    wire = Wire(peer)
    wire.collect()
    error = sx.bool('error')

    def block():
        with me.wrap(wire) as inside:
            inside.write(b'hello')
            if error:
                raise KeyError('of the user')
    exc, _ = sx.attempt(block)
    sx.check(isinstance(exc, KeyError) if error else exc is None, 'the outcome of the block', repr(exc))
    sx.check(peer.data_to_read() == b'hello', 'what the peer reads')
    sx.check(not peer.is_connected(), 'the end of the block is not announced')
    sx.reach('left')


@case(['A04', 'S08'], params=[{'side': s} for s in ('client', 'server')],
      functions=WRAPPER[1:2] + WRAPPER[5:],
      reach=('announced', 'already', 'failed'),
      bounds='the wrapper closed, or its block left with or without an error, after up to 2 of: data of '
             'the peer, its close-notify, the end of the stream, a spoiled record, data written, a close')
def closing(sx):
    """A close is announced once, unless the connection failed."""
    wire = Wire()
    wrapped, me, peer = established(sx, sx.p('side'), wire)
    wire.dry = True
    closed = failed = False
    for i in range(2):
        what = sx.choice(f'before {i}', (None, 'data', 'notify', 'end', 'spoiled', 'write', 'close'))
        if what is None:
            break
        if what == 'close':
            exc, _ = sx.attempt(wrapped.close)
            sx.check(exc is None, 'close fails', repr(exc))
            closed = closed or not failed
        elif what == 'write':
            exc, _ = sx.attempt(wrapped.write, b'data')
            sx.check((exc is None) == (not closed and not failed), 'a write', repr(exc))
        else:
            if what == 'data' and peer._state.can_send:
                peer.send_data(b'data')
            elif what == 'notify':
                peer.close_sending_end()
            wire.put(peer.data_to_send())
            if what == 'spoiled':
                wire.put(record(23, b'\0' * 60))
            over = wire.ended or not me.is_connected()
            exc, _ = sx.attempt(wrapped.read)
            if what == 'spoiled' and not over:
                sx.check(exc is not None, 'a spoiled record is read')
                failed = True
            else:
                sx.check(exc is None, 'a read fails', repr(exc))
    before = len(wire.sent)
    how = sx.choice('how', ('close', 'leave', 'leave by an error'))
    if how == 'close':
        exc, _ = sx.attempt(wrapped.close)
    elif how == 'leave':
        exc, _ = sx.attempt(wrapped.__exit__, None, None, None)
    else:
        error = KeyError('of the user')
        exc, _ = sx.attempt(wrapped.__exit__, KeyError, error, None)
    sx.check(exc is None, 'close fails', repr(exc))
    new = len(wire.sent) - before
    sx.check(not len(me.data_to_send()), 'something was not handed to the socket')
    if failed:
        sx.check(new == 0, 'a failed connection sends more')
        sx.reach('failed')
        return
    if closed:
        sx.check(new == 0, 'the close is announced again')
        sx.reach('already')
    else:
        sx.check(new > 0, 'the close is not announced')
        sx.reach('announced')
    # the peer may still receive, whatever it sent
    exc, _ = sx.attempt(peer.receive_data, wire.sent)
    sx.check(exc is None, 'the peer refuses what was sent', repr(exc))
    sx.check(not peer.is_connected(), 'the peer does not know about the end')
    exc, _ = sx.attempt(wrapped.write, b'more')
    sx.check(exc is not None, 'data can be written after the close')
