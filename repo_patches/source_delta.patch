From e77bee20dd80089094c61fcac1eeec86427d7fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 01/66] fix: crossing a nested limit is a buffer error

---
 src/siotls/serial.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/siotls/serial.py b/src/siotls/serial.py
index f916d5e..56cf3a7 100644
--- a/src/siotls/serial.py
+++ b/src/siotls/serial.py
@@ -20,6 +20,10 @@ class TooMuchDataError(TLSBufferError):
     pass
 
 
+class LimitError(TooMuchDataError, ValueError):
+    pass
+
+
 class Serializable(metaclass=abc.ABCMeta):
     _struct: str
 
@@ -150,7 +154,7 @@ class SerialIO(io.BytesIO):
         new_limit = self.tell() + length
         if new_limit > self._limits[-1]:
             e = "a more restrictive limit is present already"
-            raise ValueError(e)
+            raise LimitError(e)
 
         self._limits.append(new_limit)
 
-- 
2.43.0


From cb4f9dcb6644cbd7c68e3959abac8442734aa788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 02/66] fix: client asks for its configured max fragment length

---
 src/siotls/states/client/start.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index 6b1f584..91bd999 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -8,6 +8,7 @@ from siotls.contents.handshakes.extensions import (
     Heartbeat,
     HostName,
     KeyShareRequest,
+    MaxFragmentLength,
     OCSPStatusRequest,
     ServerCertificateTypeRequest,
     ServerNameListRequest,
@@ -16,7 +17,7 @@ from siotls.contents.handshakes.extensions import (
     SupportedVersionsRequest,
 )
 from siotls.crypto import TLSKeyExchange
-from siotls.iana import HeartbeatMode, TLSVersion
+from siotls.iana import HeartbeatMode, MaxFragmentLengthOctets, TLSVersion
 
 from .. import State
 from . import ClientWaitServerHello
@@ -54,6 +55,8 @@ class ClientStart(State):
             else:
                 # server_hostname is an ip address
                 pass  # the ServerName extension doesn't support ip addresses
+        if self.config.max_fragment_length != MaxFragmentLengthOctets.MAX_16384:
+            extensions.append(MaxFragmentLength(octets=self.config.max_fragment_length))
         if self.config.alpn:
             extensions.append(ALPN(self.config.alpn))
         if self.config.public_key:  # x509 assumed when extension missing
-- 
2.43.0


From 27c0f7d87bb13f658703e277315b569e3e8bfd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 03/66] fix: do not pad records that already are a multiple of
 the chunk size

---
 src/siotls/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 0f60da4..edc7397 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -351,7 +351,7 @@ class TLSConnection:
 
         for fragment in fragments:
             fragment_length = len(fragment) + 1 + self._cipher.tag_length
-            padding = b'\x00' * (chunk_size - fragment_length % chunk_size)
+            padding = b'\x00' * (-fragment_length % chunk_size)
             data = b''.join([
                 fragment,
                 content_type.to_bytes(1, 'big'),
-- 
2.43.0


From 9997dab1d70ff6edc531793fc4846298a28f1cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 04/66] fix: record_overflow alert name

---
 src/siotls/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index edc7397..5f98848 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -216,7 +216,7 @@ class TLSConnection:
         if content_length > max_fragment_length:
             e =(f"the record is longer ({content_length} bytes) than "
                 f"the allowed maximum ({max_fragment_length} bytes)")
-            raise alerts.RecordOverFlow(e)
+            raise alerts.RecordOverflow(e)
 
         if len(self._input_data) - 5 < content_length:
             return None
-- 
2.43.0


From 3327fa2c7cf6348647c06bd0336d44da4c4c52e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 05/66] fix: refuse a decrypted record over the maximum
 fragment length

---
 src/siotls/connection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 5f98848..4d6c645 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -235,6 +235,10 @@ class TLSConnection:
 
     def _decrypt(self, header, fragment):
         innertext = self._cipher.decrypt(fragment, header)
+        if len(innertext) > self.max_fragment_length + 1:
+            e =(f"the decrypted record is longer ({len(innertext) - 1} bytes) "
+                f"than the allowed maximum ({self.max_fragment_length} bytes)")
+            raise alerts.RecordOverflow(e)
         for i in range(len(innertext) -1, -1, -1):
             if innertext[i]:
                 break
-- 
2.43.0


From cde1e962d763032379bd74bce85b6ba08a1d96a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 06/66] fix: reassemble handshakes split or coalesced in any
 way

---
 src/siotls/connection.py | 50 ++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 4d6c645..2e3202e 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -6,7 +6,7 @@ import types
 from siotls import TLSError, key_logger
 from siotls.crypto.ciphers import TLSCipherSuite
 from siotls.iana import AlertLevel, ContentType, TLSVersion
-from siotls.serial import SerialIO, TLSBufferError, TooMuchDataError
+from siotls.serial import SerialIO, TLSBufferError
 from siotls.wrapper import WrappedSocket
 
 from . import states
@@ -248,47 +248,31 @@ class TLSConnection:
         return innertext[i], innertext[:i]
 
     def _read_next_content(self):
-        # handshakes can be fragmented over multiple following records,
-        # other content types are not subject to fragmentation
+        # handshakes can be fragmented over multiple following records and
+        # multiple handshakes can be coalesced in a same record, other
+        # content types are not subject to fragmentation
 
-        record = self._read_next_record()
-        if not record:
-            return None
-
-        content_type, fragment = record
-        if not self._input_handshake:
-            if content_type != ContentType.HANDSHAKE:
-                return content_type, fragment
-            else:
-                self._input_handshake = fragment
-        elif content_type != ContentType.HANDSHAKE:
-            e =(f"expected {ContentType.HANDSHAKE} continuation record "
-                f"but {content_type} found")
-            raise alerts.UnexpectedMessage(e)
-        else:
-            self._input_handshake += fragment
+        while True:
+            if len(self._input_handshake) >= 4:  # noqa: PLR2004
+                handshake_length = int.from_bytes(self._input_handshake[1:4], 'big') + 4
+                if len(self._input_handshake) >= handshake_length:
+                    content_data = self._input_handshake[:handshake_length]
+                    self._input_handshake = self._input_handshake[handshake_length:]
+                    return ContentType.HANDSHAKE, content_data
 
-        if len(self._input_handshake) < 4:  # noqa: PLR2004
-            return None
-        handshake_length = int.from_bytes(self._input_handshake[1:4], 'big')
-        while len(self._input_handshake) - 4 < handshake_length:
             record = self._read_next_record()
             if not record:
                 return None
+
             content_type, fragment = record
-            if content_type != ContentType.HANDSHAKE:
+            if content_type == ContentType.HANDSHAKE:
+                self._input_handshake += fragment
+            elif self._input_handshake:
                 e =(f"expected {ContentType.HANDSHAKE} continuation record "
                     f"but {content_type} found")
                 raise alerts.UnexpectedMessage(e)
-            self._input_handshake += fragment
-        if len(self._input_handshake) - 4 > handshake_length:
-            e = (f"expected {handshake_length + 4} bytes but "
-                 f"{len(self._input_handshake)} read")
-            raise TooMuchDataError(e)
-
-        content_data = self._input_handshake
-        self._input_handshake = bytearray()
-        return content_type, content_data
+            else:
+                return content_type, fragment
 
     def _send_content(self, content: Content):
         if (content.content_type == ContentType.APPLICATION_DATA
-- 
2.43.0


From bf6e4ecbae2979d470165cb9d9a5030a26f2ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 07/66] fix: a handshake cannot span a key change

---
 src/siotls/connection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 2e3202e..c106478 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -19,6 +19,7 @@ cipher_plaintext = types.SimpleNamespace(
     must_encrypt=False,
     must_decrypt=False,
     should_rekey=False,
+    _read_cipher=None,
 )
 
 def startswith_change_cipher_spec(data):
@@ -119,7 +120,11 @@ class TLSConnection:
                     self._transcript.update(
                         content_data, self.config.other_side, content.msg_type
                     )
+                read_cipher = self._cipher._read_cipher
                 self._state.process(content)
+                if self._input_handshake and self._cipher._read_cipher is not read_cipher:
+                    e = "handshake data found past a key change"
+                    raise alerts.UnexpectedMessage(e)
             except alerts.TLSFatalAlert as alert:
                 self._fail(alert)
                 raise
-- 
2.43.0


From e6b935de8062af35439ade685431503d4136233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 08/66] fix: a record that cannot be deprotected is a
 bad_record_mac

---
 src/siotls/crypto/ciphers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index c1f693e..2934f2b 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -150,7 +150,7 @@ class TLSCipherSuite(metaclass=RegistryMeta):
         try:
             return self._read_cipher.decrypt(self._next_read_nonce(), data, associated_data)
         except InvalidTag as exc:
-            raise alerts.DecryptError from exc
+            raise alerts.BadRecordMac from exc
 
     def _next_read_nonce(self):
         nonce = self._read_iv ^ next(self._read_seq)
-- 
2.43.0


From bd920e4583a09ce01ce8d5220e2bbf2a9b01faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 09/66] fix: usage limit of the CCM cipher suites

---
 src/siotls/crypto/ciphers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index 2934f2b..71021f0 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -349,7 +349,7 @@ class TLS_AES_128_CCM_SHA256(TLSCipherSuite):
     key_length = 16
     tag_length = 16
     nonce_length = 12
-    usage_limit = ...
+    usage_limit = 1 << 23  # RFC 9147, section 4.5.3
     hashempty = SHA256_EMPTY
     hashzeros = SHA256_ZEROS
 
@@ -361,6 +361,6 @@ class TLS_AES_128_CCM_8_SHA256(TLSCipherSuite):
     key_length = 16
     tag_length = 8
     nonce_length = 12
-    usage_limit = ...
+    usage_limit = 1 << 23  # RFC 9147, section 4.5.3
     hashempty = SHA256_EMPTY
     hashzeros = SHA256_ZEROS
-- 
2.43.0


From 00540f163b0ca4f8db4d475cd02fa7c56821a8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 10/66] fix: client's transcript after a HelloRetryRequest

---
 src/siotls/states/client/start.py             |  2 +-
 src/siotls/states/client/wait_server_hello.py |  8 +++++---
 src/siotls/transcript.py                      | 10 +++++++++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index 91bd999..65e07b7 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -79,7 +79,7 @@ class ClientStart(State):
         self._move_to_state(
             ClientWaitServerHello,
             key_shares=self._key_shares,
-            client_hello_transcript_hash=self._transcript.digest(),
+            client_hello_transcript=self._transcript.clone(),
         )
 
     def process(self, message):
diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index f3e2c53..5c0e5ce 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -14,11 +14,11 @@ class ClientWaitServerHello(State):
     can_send = True
     can_send_application_data = False
 
-    def __init__(self, connection, key_shares, client_hello_transcript_hash):
+    def __init__(self, connection, key_shares, client_hello_transcript):
         super().__init__(connection)
         self._is_first_server_hello = self.nconfig is None
         self._key_shares = key_shares
-        self._client_hello_transcript_hash = client_hello_transcript_hash
+        self._client_hello_transcript = client_hello_transcript
 
     def process(self, content):
         if (content.content_type != ContentType.HANDSHAKE
@@ -64,7 +64,9 @@ class ClientWaitServerHello(State):
             key_exchanges=[key_share.selected_group],
         )
 
-        self._transcript.do_hrr_dance(self.config.side, self._client_hello_transcript_hash)
+        self._client_hello_transcript.post_init(self._cipher.digestmod)
+        self._transcript.do_hrr_dance(
+            self.config.side, self._client_hello_transcript.digest())
 
         cookie_ext = hello_retry_request.extensions.get(ExtensionType.COOKIE)
         self._move_to_state(ClientStart, cookie=cookie_ext and cookie_ext.cookie)
diff --git a/src/siotls/transcript.py b/src/siotls/transcript.py
index fa6ea99..455953a 100644
--- a/src/siotls/transcript.py
+++ b/src/siotls/transcript.py
@@ -46,6 +46,7 @@ stateless HelloRetryRequest but we still have to implement the hack
 otherwise the transcript wouldn't be right.
 """
 
+import copy
 import hashlib
 
 from siotls.contents import alerts
@@ -73,6 +74,7 @@ class Transcript:
             e = "empty digestmods"
             raise ValueError(e)
         self._hashes = [dm() for dm in digestmods]
+        self._last_handshake_data = b''
         self._order_i = 1
 
     def post_init(self, digestmod):
@@ -98,6 +100,9 @@ class Transcript:
             self._hashes[0].digest_size.to_bytes(1, 'big'),
             client_hello_transcript_hash,
         ]))
+        if side == 'client':
+            # the client already received the HelloRetryRequest
+            self._hashes[0].update(self._last_handshake_data)
         self._order_i = (side == 'client')
 
     def update(self, handshake_data, side, handshake_type):
@@ -117,6 +122,7 @@ class Transcript:
 
         for hash_ in self._hashes:
             hash_.update(handshake_data)
+        self._last_handshake_data = bytes(handshake_data)
         self._order_i += 1
 
     def digest(self):
@@ -126,4 +132,6 @@ class Transcript:
         return self._hashes[0].hexdigest()
 
     def clone(self):
-        return self._hashes[0].close()
+        clone = copy.copy(self)
+        clone._hashes = [hash_.copy() for hash_ in self._hashes]
+        return clone
-- 
2.43.0


From 479fc97f479c1615c783c114e1f77c72f76a4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 11/66] fix: refuse elliptic curve shares that are not
 uncompressed points

---
 src/siotls/crypto/key_exchanges.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/siotls/crypto/key_exchanges.py b/src/siotls/crypto/key_exchanges.py
index 88e9df4..b0c043f 100644
--- a/src/siotls/crypto/key_exchanges.py
+++ b/src/siotls/crypto/key_exchanges.py
@@ -61,6 +61,9 @@ class _SECMixin:
 
     @classmethod
     def resume(cls, private_key, peer_key_share):
+        if peer_key_share[:1] != b'\x04':
+            e = "the peer's key is not an uncompressed point"
+            raise ValueError(e)
         peer_public_key = ec.EllipticCurvePublicKey.from_encoded_point(
             cls.curve(), peer_key_share
         )
-- 
2.43.0


From ed6d271d6797f2205de56b5157b5e5a5fb858930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 12/66] fix: refuse finite field shares of another length than
 the prime

---
 src/siotls/crypto/key_exchanges.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/siotls/crypto/key_exchanges.py b/src/siotls/crypto/key_exchanges.py
index b0c043f..1a417da 100644
--- a/src/siotls/crypto/key_exchanges.py
+++ b/src/siotls/crypto/key_exchanges.py
@@ -96,6 +96,9 @@ class _FFDHEMixin:
 
     @classmethod
     def resume(cls, private_key, peer_key_share):
+        if len(peer_key_share) != cls.p_length:
+            e = "the peer's key doesn't have the length of the prime"
+            raise ValueError(e)
         if len(peer_key_share.lstrip(b'\x00')) < cls.min_key_length:
             e = "the peer's key is too short"
             raise alerts.InsufficientSecurity(e)
-- 
2.43.0


From c9966dee9be2e1a878c5de525f8675d18fb597d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 13/66] fix: refuse finite field shares of another length than
 the prime

---
 src/siotls/crypto/key_exchanges.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/siotls/crypto/key_exchanges.py b/src/siotls/crypto/key_exchanges.py
index 1a417da..5302113 100644
--- a/src/siotls/crypto/key_exchanges.py
+++ b/src/siotls/crypto/key_exchanges.py
@@ -96,12 +96,12 @@ class _FFDHEMixin:
 
     @classmethod
     def resume(cls, private_key, peer_key_share):
-        if len(peer_key_share) != cls.p_length:
-            e = "the peer's key doesn't have the length of the prime"
-            raise ValueError(e)
         if len(peer_key_share.lstrip(b'\x00')) < cls.min_key_length:
             e = "the peer's key is too short"
             raise alerts.InsufficientSecurity(e)
+        if len(peer_key_share) != cls.p_length:
+            e = "the peer's key doesn't have the length of the prime"
+            raise ValueError(e)
 
         y = int.from_bytes(peer_key_share, 'big')
         if not (1 < y < cls.p - 1):
-- 
2.43.0


From 02049ce4ae2a4adf447b53742fb31baf2e569f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 14/66] fix: a known content or handshake type without parser
 is a peer's error

---
 src/siotls/contents/__init__.py            | 2 +-
 src/siotls/contents/handshakes/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/contents/__init__.py b/src/siotls/contents/__init__.py
index 9530461..1a5d2ca 100644
--- a/src/siotls/contents/__init__.py
+++ b/src/siotls/contents/__init__.py
@@ -15,7 +15,7 @@ class Content:
     def get_parser(abc, content_type):
         try:
             return _content_registry[ContentType(content_type)]
-        except ValueError as exc:
+        except (ValueError, KeyError) as exc:
             raise DecodeError(*exc.args) from exc
 
 
diff --git a/src/siotls/contents/handshakes/__init__.py b/src/siotls/contents/handshakes/__init__.py
index 03d7247..f156379 100644
--- a/src/siotls/contents/handshakes/__init__.py
+++ b/src/siotls/contents/handshakes/__init__.py
@@ -45,7 +45,7 @@ class Handshake(Content, Serializable):
         length = stream.read_int(3)
         try:
             cls = _handshake_registry[HandshakeType(msg_type)]
-        except ValueError as exc:
+        except (ValueError, KeyError) as exc:
             raise alerts.IllegalParameter(*exc.args) from exc
         with stream.limit(length):
             return cls.parse_body(stream, **kwargs)
-- 
2.43.0


From b5ada62455cee1dc119271c47acea38e0c503a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 15/66] fix: refuse the handshake messages that are not
 implemented

---
 src/siotls/contents/handshakes/end_of_early_data.py  | 7 ++++++-
 src/siotls/contents/handshakes/key_update.py         | 7 ++++++-
 src/siotls/contents/handshakes/new_session_ticket.py | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/siotls/contents/handshakes/end_of_early_data.py b/src/siotls/contents/handshakes/end_of_early_data.py
index 3c98386..b617c61 100644
--- a/src/siotls/contents/handshakes/end_of_early_data.py
+++ b/src/siotls/contents/handshakes/end_of_early_data.py
@@ -1,5 +1,6 @@
 import dataclasses
 
+from siotls.contents import alerts
 from siotls.iana import HandshakeType
 from siotls.serial import SerializableBody
 
@@ -9,4 +10,8 @@ from . import Handshake
 @dataclasses.dataclass(init=False)
 class EndOfEarlyData(Handshake, SerializableBody):
     msg_type = HandshakeType.END_OF_EARLY_DATA
-    ...
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):  # noqa: ARG003
+        e = f"{cls.__name__} is not supported"
+        raise alerts.UnexpectedMessage(e)
diff --git a/src/siotls/contents/handshakes/key_update.py b/src/siotls/contents/handshakes/key_update.py
index f1b3d38..a9f0055 100644
--- a/src/siotls/contents/handshakes/key_update.py
+++ b/src/siotls/contents/handshakes/key_update.py
@@ -1,5 +1,6 @@
 import dataclasses
 
+from siotls.contents import alerts
 from siotls.iana import HandshakeType
 from siotls.serial import SerializableBody
 
@@ -9,4 +10,8 @@ from . import Handshake
 @dataclasses.dataclass(init=False)
 class KeyUpdate(Handshake, SerializableBody):
     msg_type = HandshakeType.KEY_UPDATE
-    ...
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):  # noqa: ARG003
+        e = f"{cls.__name__} is not supported"
+        raise alerts.UnexpectedMessage(e)
diff --git a/src/siotls/contents/handshakes/new_session_ticket.py b/src/siotls/contents/handshakes/new_session_ticket.py
index cf05b47..ab6bfd3 100644
--- a/src/siotls/contents/handshakes/new_session_ticket.py
+++ b/src/siotls/contents/handshakes/new_session_ticket.py
@@ -1,5 +1,6 @@
 import dataclasses
 
+from siotls.contents import alerts
 from siotls.iana import HandshakeType
 from siotls.serial import SerializableBody
 
@@ -9,4 +10,8 @@ from . import Handshake
 @dataclasses.dataclass(init=False)
 class NewSessionTicket(Handshake, SerializableBody):
     msg_type = HandshakeType.NEW_SESSION_TICKET
-    ...
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):  # noqa: ARG003
+        e = f"{cls.__name__} is not supported"
+        raise alerts.UnexpectedMessage(e)
-- 
2.43.0


From 041db63054ae090a1b671a63ae5a3ea9fe3cdd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 16/66] fix: a failed connection ignores what it receives

---
 src/siotls/connection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index c106478..b7fb5f4 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -94,6 +94,8 @@ class TLSConnection:
         if not self._state.can_receive:
             e = f"cannot receive new messages in state {self._state.name()}"
             raise alerts.UnexpectedMessage(e)
+        if isinstance(self._state, states.Failed):
+            return  # ignore all incoming messages
         self._input_data += data
 
         while True:
@@ -176,7 +178,8 @@ class TLSConnection:
                 e =("can only fail with a fatal alert which "
                     f"{fatal_alert!r} is not")
                 raise ValueError(e)
-            self._send_content(fatal_alert)
+            if self._state.can_send:
+                self._send_content(fatal_alert)
         self._move_to_state(states.Failed)
 
     def is_post_handshake(self):
-- 
2.43.0


From 6ad6170b0a1d231cd2e64ad3318e5743eb5651fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 17/66] fix: server sends no application data before the
 Finished of the client

---
 src/siotls/states/server/wait_finished.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/server/wait_finished.py b/src/siotls/states/server/wait_finished.py
index fcba4d2..6b87ce7 100644
--- a/src/siotls/states/server/wait_finished.py
+++ b/src/siotls/states/server/wait_finished.py
@@ -7,7 +7,7 @@ from .. import Connected, State
 class ServerWaitFinished(State):
     can_receive = True
     can_send = True
-    can_send_application_data = True
+    can_send_application_data = False
 
     def __init__(self, connection, server_finished_transcript_hash):
         super().__init__(connection)
-- 
2.43.0


From 43dc7f5a93385fc819692f00389fc1c99f97dd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 18/66] fix: fatal alerts received, of any description, end the
 connection

---
 src/siotls/contents/alerts.py | 18 ++++++++++++------
 src/siotls/states/__init__.py | 10 +++++++---
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/siotls/contents/alerts.py b/src/siotls/contents/alerts.py
index 8cc376b..4cf46bc 100644
--- a/src/siotls/contents/alerts.py
+++ b/src/siotls/contents/alerts.py
@@ -76,12 +76,8 @@ class Alert(Content, Serializable, metaclass=RegistryMeta):
 
         try:
             cls = abc[AlertDescription(description)]
-        except ValueError:
-            cls = type(f'UnknownAlert{description}', (Alert,), {
-                'level': level,
-                'description': description,
-                '_struct': '',
-            })
+        except (ValueError, KeyError):
+            return UnknownAlert(description, level=level)
 
         return cls(level=level)
 
@@ -94,6 +90,16 @@ class TLSFatalAlert(TLSError):  # noqa: N818
 
 
 
+class UnknownAlert(Alert, TLSFatalAlert):
+    """ An alert whose description is not known. """
+    level = AlertLevel.FATAL
+    description = None
+
+    def __init__(self, description, *args, level=None):
+        super().__init__(*args, level=level)
+        self.description = description
+
+
 class CloseNotify(Alert):
     """
     This alert notifies the recipient that the sender will not send any
diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index 9498b89..06f3986 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -1,7 +1,7 @@
 import abc
 import logging
 
-from siotls.contents.alerts import Alert, UnexpectedMessage
+from siotls.contents.alerts import TLSFatalAlert, UnexpectedMessage, UnknownAlert
 from siotls.iana import AlertDescription, AlertLevel, ContentType
 
 logger = logging.getLogger('siotls.connection')
@@ -41,10 +41,14 @@ class State(metaclass=abc.ABCMeta):
                 logger.debug("%s closed its sending side", self.config.other_side)
             elif alert.level == AlertLevel.WARNING:
                 logger.debug("warning alert from %s: %s",
-                     self.config.other_side, content.description.name)
+                     self.config.other_side, alert.description)
             else:
+                self._move_to_state(Failed)
                 e = f"fatal alert from {self.config.other_side}"
-                raise Alert[alert.description](e)
+                if isinstance(alert, TLSFatalAlert):
+                    alert.args = (e,)
+                    raise alert
+                raise UnknownAlert(alert.description, e)
         elif content.content_type == ContentType.HEARTBEAT:
             raise NotImplementedError
         else:
-- 
2.43.0


From 1045f0722f9f11721c641ce96112cccd712e8ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 19/66] fix: a close_notify closes the receiving end only

---
 src/siotls/connection.py      | 4 +++-
 src/siotls/states/__init__.py | 3 +--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index b7fb5f4..b59d987 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -98,7 +98,7 @@ class TLSConnection:
             return  # ignore all incoming messages
         self._input_data += data
 
-        while True:
+        while self._state.can_receive and not isinstance(self._state, states.Failed):
             try:
                 next_content = self._read_next_content()
                 if not next_content:
@@ -161,6 +161,8 @@ class TLSConnection:
             logger.warning("EOF or CloseNotify alert during handshake")
             self._fail()
             return
+        if isinstance(self._state, states.Failed):
+            return
         if type(self._state) != states.Closed:
             self._move_to_state(states.Closed)
         self._state.can_receive = False
diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index 06f3986..b58d569 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -36,9 +36,8 @@ class State(metaclass=abc.ABCMeta):
         if content.content_type == ContentType.ALERT:
             alert = content
             if alert.description == AlertDescription.CLOSE_NOTIFY:
-                self._move_to_state(Closed)
-                self._state.recv_closed = True
                 logger.debug("%s closed its sending side", self.config.other_side)
+                self.connection.close_receiving_end()
             elif alert.level == AlertLevel.WARNING:
                 logger.debug("warning alert from %s: %s",
                      self.config.other_side, alert.description)
-- 
2.43.0


From 3f7d93d643a297e43709cae6abd57b0a5b4522d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 20/66] fix: closing the sending end in the handshake fails the
 connection

---
 src/siotls/connection.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index b59d987..1313ea4 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -168,11 +168,15 @@ class TLSConnection:
         self._state.can_receive = False
 
     def close_sending_end(self):
-        if not isinstance(self._state, states.Closed | states.Failed):
+        if not self._state.can_send:
+            return
+        self._send_content(alerts.CloseNotify())
+        if not self.is_post_handshake():
+            self._fail()
+            return
+        if type(self._state) != states.Closed:
             self._move_to_state(states.Closed)
-        if self._state.can_send:
-            self._send_content(alerts.CloseNotify())
-            self._state.can_send = False
+        self._state.can_send = False
 
     def _fail(self, fatal_alert=None):
         if fatal_alert:
-- 
2.43.0


From 54deb51fdf92452079ef38c5d00d1f79f1588470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 21/66] fix: no change_cipher_spec record past the handshake

---
 src/siotls/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 1313ea4..dc8251a 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -215,7 +215,8 @@ class TLSConnection:
         return self.config.max_fragment_length
 
     def _read_next_record(self):
-        while startswith_change_cipher_spec(self._input_data):
+        while (not self.is_post_handshake()
+               and startswith_change_cipher_spec(self._input_data)):
             self._input_data = self._input_data[6:]
 
         if len(self._input_data) < 5:  # noqa: PLR2004
-- 
2.43.0


From 3cb8e202d5433244e34d7a61e683575a1a896722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 22/66] fix: client refuses a second HelloRetryRequest

---
 src/siotls/states/client/wait_server_hello.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index 5c0e5ce..f5148ed 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -24,7 +24,7 @@ class ClientWaitServerHello(State):
         if (content.content_type != ContentType.HANDSHAKE
             or (content.msg_type is not HandshakeType.SERVER_HELLO
                 and (content.msg_type is not HandshakeType_.HELLO_RETRY_REQUEST
-                     and self._is_first_server_hello))):
+                     or not self._is_first_server_hello))):
             super().process(content)
             return
 
-- 
2.43.0


From 1cf0a8f5a005cf2f1c00c7406e7e29dd569f1049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 23/66] fix: a Certificate before the negotiation of its type
 is unexpected

---
 src/siotls/contents/handshakes/certificate.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/siotls/contents/handshakes/certificate.py b/src/siotls/contents/handshakes/certificate.py
index 9328735..729ae3b 100644
--- a/src/siotls/contents/handshakes/certificate.py
+++ b/src/siotls/contents/handshakes/certificate.py
@@ -131,13 +131,17 @@ class Certificate(Handshake, SerializableBody):
 
     @classmethod
     def parse_body(cls, stream, *, config, nconfig, **kwargs):
+        certificate_type = nconfig and (
+            nconfig.client_certificate_type
+            if config.other_side == 'client' else
+            nconfig.server_certificate_type
+        )
+        if certificate_type is None:
+            e = f"cannot receive {cls.__name__} before the negotiation of its type"
+            raise alerts.UnexpectedMessage(e)
         try:
-            Entry = _certificate_entry_registry[  # noqa: N806
-                nconfig.client_certificate_type
-                if config.other_side == 'client' else
-                nconfig.server_certificate_type
-            ]
-        except IndexError as exc:
+            Entry = _certificate_entry_registry[certificate_type]  # noqa: N806
+        except KeyError as exc:
             raise alerts.CertificateUnknown(*exc.args) from exc
 
         certificate_request_context = stream.read_var(1)
-- 
2.43.0


From 1d988fb77141836e316cf375cbb54bc4d4b8cbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 24/66] fix: length of the host names that are not ASCII

---
 src/siotls/contents/handshakes/extensions/server_name.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/server_name.py b/src/siotls/contents/handshakes/extensions/server_name.py
index 30fe83f..4639f55 100644
--- a/src/siotls/contents/handshakes/extensions/server_name.py
+++ b/src/siotls/contents/handshakes/extensions/server_name.py
@@ -76,9 +76,10 @@ class HostName(ServerName, SerializableBody):
             raise
 
     def serialize_body(self):
+        byte_host_name = idna.encode(self.host_name, uts46=True)
         return b''.join([
-            len(self.host_name).to_bytes(2, 'big'),
-            idna.encode(self.host_name, uts46=True),
+            len(byte_host_name).to_bytes(2, 'big'),
+            byte_host_name,
         ])
 
 @dataclasses.dataclass(init=False)
-- 
2.43.0


From e1009afa0e98531f8b2d40f7b257a288185ea45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 25/66] fix: serialize certificate authorities as an extension

---
 .../contents/handshakes/extensions/certificate_authorities.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/extensions/certificate_authorities.py b/src/siotls/contents/handshakes/extensions/certificate_authorities.py
index bc95903..8061245 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_authorities.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_authorities.py
@@ -32,7 +32,7 @@ class CertificateAuthorities(Extension, SerializableBody):
         autorities = stream.read_listvar(2, 2)
         return cls(autorities)
 
-    def serialize(self):
+    def serialize_body(self):
         autorities = b''.join([
             b''.join([
                 len(autority).to_bytes(2, 'big'),
-- 
2.43.0


From f1d25ad912c2ef25885650711b706b158acddfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 26/66] fix: serialize use_srtp as an extension

---
 src/siotls/contents/handshakes/extensions/use_srtp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/use_srtp.py b/src/siotls/contents/handshakes/extensions/use_srtp.py
index 7fcc2ce..6219c16 100644
--- a/src/siotls/contents/handshakes/extensions/use_srtp.py
+++ b/src/siotls/contents/handshakes/extensions/use_srtp.py
@@ -2,6 +2,7 @@ import dataclasses
 import itertools
 import textwrap
 
+from siotls.contents import alerts
 from siotls.iana import ExtensionType, HandshakeType
 from siotls.serial import SerializableBody
 
@@ -36,15 +37,19 @@ class UseSRTP(Extension, SerializableBody):
     @classmethod
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         # cannot use read_listint as the type in uint8[2], not uint16
-        it = iter(stream.read_var(2))
+        data = stream.read_var(2)
+        if len(data) % 2:
+            e = f"cannot read SRTP protection profiles out of {len(data)} bytes"
+            raise alerts.DecodeError(e)
+        it = iter(data)
         protection_profiles = list(zip(it, it, strict=True))
         mki = stream.read_var(1)
 
         return cls(protection_profiles, mki)
 
-    def serialize(self):
+    def serialize_body(self):
         return b''.join([
-            (len(self.mki) * 2).to_bytes(2, 'big'),
+            (len(self.protection_profiles) * 2).to_bytes(2, 'big'),
             bytes(itertools.chain.from_iterable(self.protection_profiles)),
             len(self.mki).to_bytes(1, 'big'),
             self.mki,
-- 
2.43.0


From a39885b4f568e541e22e891c333bcf88ccd19670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 27/66] fix: serialize pre shared keys

---
 .../contents/handshakes/extensions/pre_shared_key.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/pre_shared_key.py b/src/siotls/contents/handshakes/extensions/pre_shared_key.py
index da5fca5..6cce6ce 100644
--- a/src/siotls/contents/handshakes/extensions/pre_shared_key.py
+++ b/src/siotls/contents/handshakes/extensions/pre_shared_key.py
@@ -54,17 +54,21 @@ class PreSharedKeyRequest(Extension, SerializableBody):
     def serialize_body(self):
         identities = b''.join(
             b''.join([
-                len(pskid.identify).to_bytes(2, 'big'),
-                pskid.identify,
+                len(pskid.identity).to_bytes(2, 'big'),
+                pskid.identity,
                 pskid.obfuscated_ticket_age.to_bytes(4, 'big')
             ]) for pskid in self.identities
         )
+        binders = b''.join(
+            len(binder).to_bytes(1, 'big') + binder
+            for binder in self.binders
+        )
 
         return b''.join([
             len(identities).to_bytes(2, 'big'),
             identities,
-            len(self.binders).to_bytes(2, 'big'),
-            *self.binders,
+            len(binders).to_bytes(2, 'big'),
+            binders,
         ])
 
 
-- 
2.43.0


From ec011972380c4b5439d89ebea4cd0be2d47b05e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:35 +0000
Subject: [PATCH 28/66] fix: serialize certificate types

---
 src/siotls/contents/handshakes/extensions/certificate_type.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/certificate_type.py b/src/siotls/contents/handshakes/extensions/certificate_type.py
index 6ae28fe..c30b499 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_type.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_type.py
@@ -34,7 +34,7 @@ class _CertificateTypeRequest(SerializableBody):
 
     def serialize_body(self):
         return b''.join([
-            len(self.certificate_type).to_bytes(1, 'big'),
+            len(self.certificate_types).to_bytes(1, 'big'),
             *[ct.to_bytes(1, 'big') for ct in self.certificate_types],
         ])
 
@@ -55,7 +55,6 @@ class _CertificateTypeResponse(SerializableBody):
             raise alerts.IllegalParameter(*exc.args) from exc
         return cls(certificate_type)
 
-    @classmethod
     def serialize_body(self):
         return self.certificate_type.to_bytes(1, 'big')
 
-- 
2.43.0


From 1decd0d01d7198b3ced75e77c0ff219283cca7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 29/66] fix: serialize heartbeats

---
 src/siotls/contents/heartbeat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/contents/heartbeat.py b/src/siotls/contents/heartbeat.py
index f99c508..8a53350 100644
--- a/src/siotls/contents/heartbeat.py
+++ b/src/siotls/contents/heartbeat.py
@@ -47,9 +47,9 @@ class Heartbeat(Content, Serializable):
         return cls(heartbeat_type, payload, padding)
 
     def serialize(self):
-        return b''.join(
+        return b''.join([
             self.heartbeat_type.to_bytes(1, 'big'),
             len(self.payload).to_bytes(2, 'big'),
             self.payload,
             self.padding,
-        )
+        ])
-- 
2.43.0


From bafc3baec476a24172517730db568d06de11bbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 30/66] fix: parse OCSP statuses

---
 src/siotls/contents/handshakes/extensions/status_request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/extensions/status_request.py b/src/siotls/contents/handshakes/extensions/status_request.py
index 4d1e124..061defc 100644
--- a/src/siotls/contents/handshakes/extensions/status_request.py
+++ b/src/siotls/contents/handshakes/extensions/status_request.py
@@ -144,7 +144,7 @@ class OCSPStatus(CertificateStatus):
         self.ocsp_response = ocsp_response
 
     @classmethod
-    def parse_bodybody(cls, stream):
+    def parse_bodybody(cls, stream, **kwargs):  # noqa: ARG003
         return cls(stream.read_var(3))
 
     def serialize_bodybody(self):
-- 
2.43.0


From 8dc3bee8869c11bc9ddfebbdf853b9d722da574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:47 +0000
Subject: [PATCH 31/66] fix: compare and print alerts that are no errors

---
 src/siotls/contents/alerts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/siotls/contents/alerts.py b/src/siotls/contents/alerts.py
index 4cf46bc..c982c47 100644
--- a/src/siotls/contents/alerts.py
+++ b/src/siotls/contents/alerts.py
@@ -63,6 +63,7 @@ class Alert(Content, Serializable, metaclass=RegistryMeta):
 
     def __init__(self, *args, level=None):
         super().__init__(*args)
+        self.args = args
         if level is not None:
             self.level = level
 
-- 
2.43.0


From 203ac73d9a4d11c23f2d19ca9855d4a27b7e5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 32/66] fix: refuse cookies in ServerHello

---
 src/siotls/contents/handshakes/extensions/cookie.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/extensions/cookie.py b/src/siotls/contents/handshakes/extensions/cookie.py
index d58a9b6..b10be63 100644
--- a/src/siotls/contents/handshakes/extensions/cookie.py
+++ b/src/siotls/contents/handshakes/extensions/cookie.py
@@ -12,7 +12,6 @@ class Cookie(Extension, SerializableBody):
     extension_type = ExtensionType.COOKIE
     _handshake_types = (
         HandshakeType.CLIENT_HELLO,
-        HandshakeType.SERVER_HELLO,
         HandshakeType_.HELLO_RETRY_REQUEST
     )
 
-- 
2.43.0


From 59032142dbc73df45e90a048a1721584302fc9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 33/66] fix: the padding extension is zeros

---
 src/siotls/contents/handshakes/extensions/padding.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/extensions/padding.py b/src/siotls/contents/handshakes/extensions/padding.py
index 23a9f4d..61387c5 100644
--- a/src/siotls/contents/handshakes/extensions/padding.py
+++ b/src/siotls/contents/handshakes/extensions/padding.py
@@ -1,6 +1,7 @@
 import dataclasses
 import textwrap
 
+from siotls.contents import alerts
 from siotls.iana import ExtensionType, HandshakeType
 from siotls.serial import SerializableBody
 
@@ -24,7 +25,11 @@ class Padding(Extension, SerializableBody):
 
     @classmethod
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
-        return cls(len(stream.read()))
+        zeros = stream.read()
+        if any(zeros):
+            e = "the padding extension must be zeros"
+            raise alerts.IllegalParameter(e)
+        return cls(len(zeros))
 
     def serialize_body(self):
         return b'\x00' * self.zeros_count
-- 
2.43.0


From 7c50e7702df4dee8b04125c13225638ec64f7591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 34/66] fix: refuse certificates that are not DER

---
 src/siotls/contents/handshakes/certificate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/siotls/contents/handshakes/certificate.py b/src/siotls/contents/handshakes/certificate.py
index 729ae3b..552ab40 100644
--- a/src/siotls/contents/handshakes/certificate.py
+++ b/src/siotls/contents/handshakes/certificate.py
@@ -1,6 +1,7 @@
 import dataclasses
 import textwrap
 
+from cryptography.exceptions import UnsupportedAlgorithm
 from cryptography.hazmat.primitives.asymmetric.types import PublicKeyTypes
 from cryptography.hazmat.primitives.serialization import (
     Encoding,
@@ -49,7 +50,10 @@ class CertificateEntry(Serializable):
     @classmethod
     def parse(cls, stream, **kwargs):
         data = stream.read_var(3)
-        certificate = cls._parse_certificate(data)
+        try:
+            certificate = cls._parse_certificate(data)
+        except (ValueError, UnsupportedAlgorithm) as exc:
+            raise alerts.BadCertificate(*exc.args) from exc
 
         extensions = []
         list_stream = SerialIO(stream.read_var(2))
-- 
2.43.0


From b1da3232f3de97039f7649a8544a6afc077265b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 35/66] fix: refuse versions prior to TLS 1.3 in
 supported_versions

---
 .../contents/handshakes/extensions/supported_versions.py       | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/supported_versions.py b/src/siotls/contents/handshakes/extensions/supported_versions.py
index 2afa44b..278723e 100644
--- a/src/siotls/contents/handshakes/extensions/supported_versions.py
+++ b/src/siotls/contents/handshakes/extensions/supported_versions.py
@@ -64,10 +64,9 @@ class SupportedVersionsResponse(Extension, SerializableBody):
     @classmethod
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         try:
-            selected_version = TLSVersion(stream.read_int(2))
+            return cls(TLSVersion(stream.read_int(2)))
         except ValueError as exc:
             raise alerts.IllegalParameter(*exc.args) from exc
-        return cls(selected_version)
 
     def serialize_body(self):
         return self.selected_version.to_bytes(2, 'big')
-- 
2.43.0


From 2e43ed480c7d9e901fc9849f1b03fe161db0b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 36/66] fix: refuse duplicated extensions that differ in every
 message

---
 src/siotls/contents/handshakes/certificate.py          | 10 +++++++++-
 src/siotls/contents/handshakes/certificate_request.py  |  3 +++
 src/siotls/contents/handshakes/client_hello.py         |  4 ++--
 src/siotls/contents/handshakes/encrypted_extensions.py |  9 ++++++++-
 .../contents/handshakes/extensions/certificate_type.py |  4 ++++
 .../contents/handshakes/extensions/status_request.py   |  1 +
 src/siotls/contents/handshakes/server_hello.py         |  8 +++++++-
 7 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/siotls/contents/handshakes/certificate.py b/src/siotls/contents/handshakes/certificate.py
index 552ab40..e9b9185 100644
--- a/src/siotls/contents/handshakes/certificate.py
+++ b/src/siotls/contents/handshakes/certificate.py
@@ -15,6 +15,7 @@ from siotls.iana import CertificateType, ExtensionType, HandshakeType
 from siotls.serial import SerialIO, Serializable, SerializableBody
 
 from . import Handshake
+from .client_hello import find_duplicated_extension
 from .extensions import Extension
 
 _certificate_entry_registry = {}
@@ -65,7 +66,10 @@ class CertificateEntry(Serializable):
             )
             extensions.append(extension)
 
-        return cls(certificate, extensions)
+        try:
+            return cls(certificate, extensions)
+        except ValueError as exc:
+            raise alerts.IllegalParameter(*exc.args) from exc
 
     def serialize(self):
         extensions = b''.join(ext.serialize() for ext in self.extensions.values())
@@ -87,6 +91,8 @@ class X509(CertificateEntry):
     def __init__(self, certificate, extensions):
         self.certificate = certificate
         self.extensions = {ext.extension_type: ext for ext in extensions}
+        if len(self.extensions) != len(extensions):
+            find_duplicated_extension(extensions)
 
     @classmethod
     def _parse_certificate(cls, data):
@@ -104,6 +110,8 @@ class RawPublicKey(CertificateEntry):
     def __init__(self, public_key, extensions):
         self.public_key = public_key
         self.extensions = {ext.extension_type: ext for ext in extensions}
+        if len(self.extensions) != len(extensions):
+            find_duplicated_extension(extensions)
 
     @classmethod
     def _parse_certificate(cls, data):
diff --git a/src/siotls/contents/handshakes/certificate_request.py b/src/siotls/contents/handshakes/certificate_request.py
index 704bc12..62154e5 100644
--- a/src/siotls/contents/handshakes/certificate_request.py
+++ b/src/siotls/contents/handshakes/certificate_request.py
@@ -7,6 +7,7 @@ from siotls.iana import ExtensionType, HandshakeType
 from siotls.serial import SerialIO, SerializableBody
 
 from . import Handshake
+from .client_hello import find_duplicated_extension
 
 
 @dataclasses.dataclass(init=False)
@@ -24,6 +25,8 @@ class CertificateRequest(Handshake, SerializableBody):
     def __init__(self, certificate_request_context, extensions):
         self.certificate_request_context = certificate_request_context
         self.extensions = {ext.extension_type: ext for ext in extensions}
+        if len(self.extensions) != len(extensions):
+            find_duplicated_extension(extensions)
         if ExtensionType.SIGNATURE_ALGORITHMS not in self.extensions:
             e =(f"{ExtensionType.SIGNATURE_ALGORITHMS} is a mandatory "
                 f"extension with {type(self)}")
diff --git a/src/siotls/contents/handshakes/client_hello.py b/src/siotls/contents/handshakes/client_hello.py
index e59e765..ef2e20e 100644
--- a/src/siotls/contents/handshakes/client_hello.py
+++ b/src/siotls/contents/handshakes/client_hello.py
@@ -13,7 +13,7 @@ from .extensions import Extension
 logger = logging.getLogger(__name__)
 
 
-def _find_duplicated_extension(extensions):
+def find_duplicated_extension(extensions):
     for ext_no, ext1 in enumerate(extensions):
         for ext2 in extensions[ext_no+1:]:
             if ext1.extension_type != ext2.extension_type:
@@ -68,7 +68,7 @@ class ClientHello(Handshake, SerializableBody):
             raise ValueError(e)
 
         if len(self.extensions) != len(extensions):
-            _find_duplicated_extension(extensions)
+            find_duplicated_extension(extensions)
 
         if ExtensionType.PRE_SHARED_KEY in self.extensions:
             if extensions[-1].extension_type != ExtensionType.PRE_SHARED_KEY:
diff --git a/src/siotls/contents/handshakes/encrypted_extensions.py b/src/siotls/contents/handshakes/encrypted_extensions.py
index 066cab8..d2ed711 100644
--- a/src/siotls/contents/handshakes/encrypted_extensions.py
+++ b/src/siotls/contents/handshakes/encrypted_extensions.py
@@ -2,10 +2,12 @@ import dataclasses
 import logging
 import textwrap
 
+from siotls.contents import alerts
 from siotls.iana import ExtensionType, HandshakeType
 from siotls.serial import SerialIO, SerializableBody
 
 from . import Handshake
+from .client_hello import find_duplicated_extension
 from .extensions import Extension
 
 logger = logging.getLogger(__name__)
@@ -25,6 +27,8 @@ class EncryptedExtensions(Handshake, SerializableBody):
 
     def __init__(self, extensions: list[Extension]):
         self.extensions = {ext.extension_type: ext for ext in extensions}
+        if len(self.extensions) != len(extensions):
+            find_duplicated_extension(extensions)
 
     @classmethod
     def parse_body(cls, stream, **kwargs):
@@ -34,7 +38,10 @@ class EncryptedExtensions(Handshake, SerializableBody):
             extension = Extension.parse(list_stream, handshake_type=cls.msg_type, **kwargs)
             extensions.append(extension)
 
-        return cls(extensions)
+        try:
+            return cls(extensions)
+        except ValueError as exc:
+            raise alerts.IllegalParameter(*exc.args) from exc
 
     def serialize_body(self):
         extensions = b''.join(ext.serialize() for ext in self.extensions.values())
diff --git a/src/siotls/contents/handshakes/extensions/certificate_type.py b/src/siotls/contents/handshakes/extensions/certificate_type.py
index c30b499..d262328 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_type.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_type.py
@@ -58,6 +58,7 @@ class _CertificateTypeResponse(SerializableBody):
     def serialize_body(self):
         return self.certificate_type.to_bytes(1, 'big')
 
+@dataclasses.dataclass(init=False)
 class ClientCertificateTypeRequest(Extension, _CertificateTypeRequest):
     extension_type = ExtensionType.CLIENT_CERTIFICATE_TYPE
     _struct = textwrap.dedent("""\
@@ -66,6 +67,7 @@ class ClientCertificateTypeRequest(Extension, _CertificateTypeRequest):
         } ClientCertTypeExtension;
     """).strip()
 
+@dataclasses.dataclass(init=False)
 class ClientCertificateTypeResponse(Extension, _CertificateTypeResponse):
     extension_type = ExtensionType.CLIENT_CERTIFICATE_TYPE
     _struct = textwrap.dedent("""\
@@ -74,6 +76,7 @@ class ClientCertificateTypeResponse(Extension, _CertificateTypeResponse):
         } ClientCertTypeExtension;
     """).strip()
 
+@dataclasses.dataclass(init=False)
 class ServerCertificateTypeRequest(Extension, _CertificateTypeRequest):
     extension_type = ExtensionType.SERVER_CERTIFICATE_TYPE
     _struct = textwrap.dedent("""\
@@ -82,6 +85,7 @@ class ServerCertificateTypeRequest(Extension, _CertificateTypeRequest):
         } ServerCertTypeExtension;
     """).strip()
 
+@dataclasses.dataclass(init=False)
 class ServerCertificateTypeResponse(Extension, _CertificateTypeResponse):
     extension_type = ExtensionType.SERVER_CERTIFICATE_TYPE
     _struct = textwrap.dedent("""\
diff --git a/src/siotls/contents/handshakes/extensions/status_request.py b/src/siotls/contents/handshakes/extensions/status_request.py
index 061defc..cb81839 100644
--- a/src/siotls/contents/handshakes/extensions/status_request.py
+++ b/src/siotls/contents/handshakes/extensions/status_request.py
@@ -132,6 +132,7 @@ class CertificateStatus(Extension, SerializableBody):
             self.serialize_bodybody(),
         ])
 
+@dataclasses.dataclass(init=False)
 class OCSPStatus(CertificateStatus):
     status_type = CertificateStatusType.OCSP
 
diff --git a/src/siotls/contents/handshakes/server_hello.py b/src/siotls/contents/handshakes/server_hello.py
index ec38663..29aad58 100644
--- a/src/siotls/contents/handshakes/server_hello.py
+++ b/src/siotls/contents/handshakes/server_hello.py
@@ -8,6 +8,7 @@ from siotls.serial import SerialIO, SerializableBody
 from siotls.utils import try_cast
 
 from . import Handshake
+from .client_hello import find_duplicated_extension
 from .extensions import Extension
 
 logger = logging.getLogger(__name__)
@@ -52,6 +53,8 @@ class ServerHello(Handshake, SerializableBody):
         self.cipher_suite = cipher_suite
         self.legacy_compression_methods = type(self).legacy_compression_methods
         self.extensions = {ext.extension_type: ext for ext in extensions}
+        if len(self.extensions) != len(extensions):
+            find_duplicated_extension(extensions)
 
     @classmethod
     def parse_body(cls, stream, **kwargs):
@@ -80,7 +83,10 @@ class ServerHello(Handshake, SerializableBody):
             extension = Extension.parse(list_stream, handshake_type=cls.msg_type, **kwargs)
             extensions.append(extension)
 
-        return cls(random, legacy_session_id_echo, cipher_suite, extensions)
+        try:
+            return cls(random, legacy_session_id_echo, cipher_suite, extensions)
+        except ValueError as exc:
+            raise alerts.IllegalParameter(*exc.args) from exc
 
     def serialize_body(self):
         extensions = b''.join(ext.serialize() for ext in self.extensions.values())
-- 
2.43.0


From f0da4067fbd10a091b77b6f4d985a6281b27b3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 37/66] fix: check the version of HelloRetryRequest

---
 src/siotls/states/client/wait_server_hello.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index f5148ed..80f9cdc 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -49,6 +49,9 @@ class ClientWaitServerHello(State):
     def _process_hello_retry_request(self, hello_retry_request):
         from . import ClientStart
 
+        self._negociate_supported_versions(
+            hello_retry_request.extensions.get(ExtensionType.SUPPORTED_VERSIONS))
+
         key_share = hello_retry_request.extensions.get(ExtensionType.KEY_SHARE)
         if not key_share:
             e = "missing Key Share in HelloRetryRequest"
-- 
2.43.0


From e300de1f1b30dadc6d186c94eefb3d2514857cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 38/66] fix: refuse a HelloRetryRequest for a group already
 shared

---
 src/siotls/states/client/wait_server_hello.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index 80f9cdc..c0e1302 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -60,6 +60,9 @@ class ClientWaitServerHello(State):
             e =(f"the server's selected {key_share.selected_group} wasn't "
                 f"offered in ClientHello: {self.config.key_exchanges}")
             raise alerts.IllegalParameter(e)
+        if key_share.selected_group in self._key_shares:
+            e = f"the server's selected {key_share.selected_group} was already shared"
+            raise alerts.IllegalParameter(e)
 
         # make sure we select the algorithms selected by the server
         self.config = dataclasses.replace(self.config,
-- 
2.43.0


From a5346ca6f821df4c542a18813d94aec01cd669fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 39/66] fix: check the session id echoed by the server

---
 src/siotls/states/client/wait_server_hello.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index c0e1302..e238ed0 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -2,6 +2,7 @@ import dataclasses
 
 from siotls.configuration import TLSNegotiatedConfiguration
 from siotls.contents import ChangeCipherSpec, alerts
+from siotls.contents.handshakes import ClientHello
 from siotls.crypto import TLSCipherSuite, TLSKeyExchange
 from siotls.iana import ContentType, ExtensionType, HandshakeType, HandshakeType_, TLSVersion
 
@@ -28,6 +29,10 @@ class ClientWaitServerHello(State):
             super().process(content)
             return
 
+        if content.legacy_session_id_echo != ClientHello.legacy_session_id:
+            e = "the session id echoed by the server isn't the one of ClientHello"
+            raise alerts.IllegalParameter(e)
+
         if content.cipher_suite not in self.config.cipher_suites:
             e =(f"the server's selected {content.cipher_suite} wasn't offered "
                 f"in ClientHello: {self.config.cipher_suites}")
-- 
2.43.0


From 16afff35f0ed9ef0bcd3c639d90fee8b80f00b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 40/66] fix: report the negotiated key exchange client side

---
 src/siotls/states/client/wait_server_hello.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index e238ed0..b469579 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -124,5 +124,5 @@ class ClientWaitServerHello(State):
             except ValueError as exc:
                 e = "error while resuming key share"
                 raise alerts.IllegalParameter(e) from exc
-            self.nconfig.key_exchanges = key_share_ext.group
+            self.nconfig.key_exchange = key_share_ext.group
             return shared_key
-- 
2.43.0


From c2e600a16008fe435afdd21ebb6268161cc263bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 41/66] fix: report the negotiated signature algorithm server
 side

---
 src/siotls/states/server/wait_client_hello.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 16febe9..8608cd7 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -282,6 +282,7 @@ class ServerWaitClientHello(State):
         suites = TLSSignatureSuite.for_public_key_oid(pubkey_oid)
         for server_suite in self.config.signature_algorithms:
             if server_suite in suites and server_suite in sa_ext.supported_signature_algorithms:
+                self.nconfig.signature_algorithm = server_suite
                 self._signature = suites[server_suite](self.config.private_key)
                 return [], []
         e = "no common signature algorithm found"
-- 
2.43.0


From 802d23f87604aedffe2106c40b1705fe1a24a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 42/66] fix: sign only with algorithms that suit the key

---
 src/siotls/crypto/signatures.py               | 25 +++++++++++++++++++
 src/siotls/states/server/wait_client_hello.py |  5 ++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/siotls/crypto/signatures.py b/src/siotls/crypto/signatures.py
index 2eff651..272b0a0 100644
--- a/src/siotls/crypto/signatures.py
+++ b/src/siotls/crypto/signatures.py
@@ -38,6 +38,18 @@ class TLSSignatureSuite(metaclass=RegistryMeta):
     def for_public_key_oid(cls, public_key_oid):
         return cls._pubkey_registry[public_key_oid]
 
+    @classmethod
+    def for_certificate_verify(cls, public_key, public_key_oid):
+        return {
+            iana_id: suite
+            for iana_id, suite in cls._pubkey_registry.get(public_key_oid, {}).items()
+            if suite.suits_certificate_verify(public_key)
+        }
+
+    @classmethod
+    def suits_certificate_verify(cls, public_key):  # noqa: ARG003
+        return True
+
     def __init__(self, key):
         self.key = key
 
@@ -54,6 +66,11 @@ class _RSAMixin:
     digestmod: hashes.Hash
     padding = padding.PKCS1v15()
 
+    @classmethod
+    def suits_certificate_verify(cls, public_key):  # noqa: ARG003
+        # PKCS1 v1.5 is only for the signatures inside certificates
+        return isinstance(cls.padding, padding.PSS)
+
     def sign(self, message):
         return self.key.sign(message, self.padding, self.digestmod)
 
@@ -122,8 +139,13 @@ class TLS_RSA_PSS_PSS_SHA512(_RSAMixin, TLSSignatureSuite):
 
 
 class _ECDSAMixin:
+    curve: ec.EllipticCurve
     digestmod: hashes.Hash
 
+    @classmethod
+    def suits_certificate_verify(cls, public_key):
+        return public_key.curve.name == cls.curve.name
+
     def sign(self, message):
         return self.key.sign(message, ec.ECDSA(self.digestmod))
 
@@ -134,18 +156,21 @@ class TLS_ECDSA_SECP256R1_SHA256(_ECDSAMixin, TLSSignatureSuite):
     iana_id = SignatureScheme.ecdsa_secp256r1_sha256
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA256
+    curve = ec.SECP256R1()
     digestmod = hashes.SHA256()
 
 class TLS_ECDSA_SECP384R1_SHA384(_ECDSAMixin, TLSSignatureSuite):
     iana_id = SignatureScheme.ecdsa_secp384r1_sha384
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA384
+    curve = ec.SECP384R1()
     digestmod = hashes.SHA384()
 
 class TLS_ECDSA_SECP521R1_SHA512(_ECDSAMixin, TLSSignatureSuite):
     iana_id = SignatureScheme.ecdsa_secp521r1_sha512
     pubkey_oid = PublicKeyAlgorithmOID.EC_PUBLIC_KEY
     sign_oid = SignatureAlgorithmOID.ECDSA_WITH_SHA512
+    curve = ec.SECP521R1()
     digestmod = hashes.SHA512()
 
 
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 8608cd7..c1aa1a6 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -278,8 +278,9 @@ class ServerWaitClientHello(State):
     def _negociate_signature_algorithms(self, sa_ext):
         if not sa_ext:
             raise alerts.MissingExtension(ExtensionType.SIGNATURE_ALGORITHMS)
-        pubkey_oid = self.config.certificate_chain[0].public_key_algorithm_oid
-        suites = TLSSignatureSuite.for_public_key_oid(pubkey_oid)
+        certificate = self.config.certificate_chain[0]
+        suites = TLSSignatureSuite.for_certificate_verify(
+            certificate.public_key(), certificate.public_key_algorithm_oid)
         for server_suite in self.config.signature_algorithms:
             if server_suite in suites and server_suite in sa_ext.supported_signature_algorithms:
                 self.nconfig.signature_algorithm = server_suite
-- 
2.43.0


From 75a72167081dffb924e74e5103817bdbcf55b673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 43/66] fix: negotiate the signature of servers with a raw
 public key alone

---
 src/siotls/crypto/signatures.py               | 16 ++++++++++++++--
 src/siotls/states/server/wait_client_hello.py |  9 ++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/siotls/crypto/signatures.py b/src/siotls/crypto/signatures.py
index 272b0a0..8177f57 100644
--- a/src/siotls/crypto/signatures.py
+++ b/src/siotls/crypto/signatures.py
@@ -5,11 +5,18 @@ from typing import ClassVar
 
 from cryptography.hazmat._oid import PublicKeyAlgorithmOID, SignatureAlgorithmOID
 from cryptography.hazmat.primitives import hashes
-from cryptography.hazmat.primitives.asymmetric import ec, padding, types
+from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, padding, rsa, types
 
 from siotls.iana import SignatureScheme
 from siotls.utils import RegistryMeta
 
+_RAW_KEY_OIDS = {
+    rsa.RSAPublicKey: PublicKeyAlgorithmOID.RSAES_PKCS1_v1_5,
+    ec.EllipticCurvePublicKey: PublicKeyAlgorithmOID.EC_PUBLIC_KEY,
+    ed25519.Ed25519PublicKey: PublicKeyAlgorithmOID.ED25519,
+    ed448.Ed448PublicKey: PublicKeyAlgorithmOID.ED448,
+}
+
 
 class TLSSignatureSuite(metaclass=RegistryMeta):
     _pubkey_registry: ClassVar = {}
@@ -39,7 +46,12 @@ class TLSSignatureSuite(metaclass=RegistryMeta):
         return cls._pubkey_registry[public_key_oid]
 
     @classmethod
-    def for_certificate_verify(cls, public_key, public_key_oid):
+    def for_certificate_verify(cls, public_key, public_key_oid=None):
+        if public_key_oid is None:  # raw public key
+            public_key_oid = next(
+                (oid for type_, oid in _RAW_KEY_OIDS.items() if isinstance(public_key, type_)),
+                None
+            )
         return {
             iana_id: suite
             for iana_id, suite in cls._pubkey_registry.get(public_key_oid, {}).items()
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index c1aa1a6..dc40938 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -278,9 +278,12 @@ class ServerWaitClientHello(State):
     def _negociate_signature_algorithms(self, sa_ext):
         if not sa_ext:
             raise alerts.MissingExtension(ExtensionType.SIGNATURE_ALGORITHMS)
-        certificate = self.config.certificate_chain[0]
-        suites = TLSSignatureSuite.for_certificate_verify(
-            certificate.public_key(), certificate.public_key_algorithm_oid)
+        if self.config.certificate_chain:
+            certificate = self.config.certificate_chain[0]
+            suites = TLSSignatureSuite.for_certificate_verify(
+                certificate.public_key(), certificate.public_key_algorithm_oid)
+        else:
+            suites = TLSSignatureSuite.for_certificate_verify(self.config.public_key)
         for server_suite in self.config.signature_algorithms:
             if server_suite in suites and server_suite in sa_ext.supported_signature_algorithms:
                 self.nconfig.signature_algorithm = server_suite
-- 
2.43.0


From ae10b88e965791dab60e5a7543ce6c7f17f11d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 44/66] fix: refuse X.509 certificates when just raw public
 keys are trusted

---
 src/siotls/states/client/wait_encrypted_extensions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/siotls/states/client/wait_encrypted_extensions.py b/src/siotls/states/client/wait_encrypted_extensions.py
index 9d4ab8a..cbee5dc 100644
--- a/src/siotls/states/client/wait_encrypted_extensions.py
+++ b/src/siotls/states/client/wait_encrypted_extensions.py
@@ -83,6 +83,10 @@ class ClientWaitEncryptedExtensions(State):
 
     def _negociate_server_certificate_type(self, ext):
         if not ext:
+            if (self.config.require_peer_authentication
+                and CertificateType.X509 not in self.config.peer_certificate_types):
+                e = "the server didn't select any of the offered certificate types"
+                raise alerts.UnsupportedCertificate(e)
             self.nconfig.server_certificate_type = CertificateType.X509
         elif ext.certificate_type in self.config.peer_certificate_types:
             self.nconfig.server_certificate_type = ext.certificate_type
-- 
2.43.0


From 362bccc469aa200bc76ab7d0adf2b338c04a1de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 45/66] fix: look the raw public key up in the trusted ones

---
 src/siotls/states/client/wait_certificate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 69036f2..8632b21 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -124,7 +124,7 @@ class ClientWaitCertificate(State):
         public_key = content.certificate_list[0].public_key
         self.nconfig.peer_public_key = public_key
         if (self.config.require_peer_authentication
-            and public_key not in self.config.trusted_public_keys()
+            and public_key not in self.config.trusted_public_keys
         ):
             e = "untrusted raw public key"
             raise alerts.BadCertificate(e)
-- 
2.43.0


From 66934ecf3a4c23732860197a6d6cfdfb8d0e22a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 46/66] fix: alert on bad CertificateVerify signatures

---
 .../states/client/wait_certificate_verify.py       | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate_verify.py b/src/siotls/states/client/wait_certificate_verify.py
index a5027c0..dede750 100644
--- a/src/siotls/states/client/wait_certificate_verify.py
+++ b/src/siotls/states/client/wait_certificate_verify.py
@@ -1,3 +1,5 @@
+from cryptography.exceptions import InvalidSignature
+
 from siotls.contents import alerts
 from siotls.crypto import TLSSignatureSuite
 from siotls.iana import ContentType, HandshakeType
@@ -38,10 +40,14 @@ class ClientWaitCertificateVerify(State):
             self.nconfig.peer_public_key
             or self.nconfig.peer_certificate.public_key()
         )
-        TLSSignatureSuite[content.algorithm](public_key).verify(
-            content.signature,
-            CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
-        )
+        try:
+            TLSSignatureSuite[content.algorithm](public_key).verify(
+                content.signature,
+                CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
+            )
+        except InvalidSignature as exc:
+            e = "invalid CertificateVerify signature"
+            raise alerts.DecryptError(e) from exc
 
         self._move_to_state(
             ClientWaitFinished,
-- 
2.43.0


From c2c5326c2a12a6916a9fe02abcf1a7629afe2d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 47/66] fix: verify only signatures that suit the peer's key

---
 .../states/client/wait_certificate_verify.py  | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate_verify.py b/src/siotls/states/client/wait_certificate_verify.py
index dede750..cad3830 100644
--- a/src/siotls/states/client/wait_certificate_verify.py
+++ b/src/siotls/states/client/wait_certificate_verify.py
@@ -1,4 +1,4 @@
-from cryptography.exceptions import InvalidSignature
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
 
 from siotls.contents import alerts
 from siotls.crypto import TLSSignatureSuite
@@ -36,12 +36,14 @@ class ClientWaitCertificateVerify(State):
             raise alerts.IllegalParameter(e)
         self.nconfig.signature_algorithm = content.algorithm
 
-        public_key = (
-            self.nconfig.peer_public_key
-            or self.nconfig.peer_certificate.public_key()
-        )
+        public_key, public_key_oid = self._get_public_key()
+        suites = TLSSignatureSuite.for_certificate_verify(public_key, public_key_oid)
+        if content.algorithm not in suites:
+            e =(f"the server's selected {content.algorithm} doesn't suit "
+                "its public key")
+            raise alerts.IllegalParameter(e)
         try:
-            TLSSignatureSuite[content.algorithm](public_key).verify(
+            suites[content.algorithm](public_key).verify(
                 content.signature,
                 CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
             )
@@ -54,3 +56,12 @@ class ClientWaitCertificateVerify(State):
             must_authentify=self._must_authentify,
             certificate_verify_transcript_hash=self._transcript.digest(),
         )
+
+    def _get_public_key(self):
+        if self.nconfig.peer_public_key:
+            return self.nconfig.peer_public_key, None
+        certificate = self.nconfig.peer_certificate
+        try:
+            return certificate.public_key(), certificate.public_key_algorithm_oid
+        except (ValueError, UnsupportedAlgorithm) as exc:
+            raise alerts.UnsupportedCertificate(*exc.args) from exc
-- 
2.43.0


From 211f5376408dca0d9c171f3d2f45ee5071965d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 48/66] fix: look the serial numbers up in the revocation list

---
 src/siotls/states/client/wait_certificate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 8632b21..bc2053a 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -95,7 +95,7 @@ class ClientWaitCertificate(State):
             return
         is_revoked = self.config.revocation_list.get_revoked_certificate_by_serial_number
         for entry in certificate_entries:
-            if is_revoked(entry.certificate):
+            if is_revoked(entry.certificate.serial_number):
                 e = f"{entry.certificate} found in revocation list"
                 raise alerts.BadCertificate(e)
 
-- 
2.43.0


From 23e8e6cb40636556ef33c2fe31acd22b07ae83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 49/66] fix: support certificates without OCSP address

---
 src/siotls/crypto/ocsp.py                     | 8 ++++++--
 src/siotls/states/server/wait_client_hello.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index 57e6ee7..2c9411c 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -3,6 +3,7 @@ from datetime import datetime
 from cryptography.exceptions import InvalidSignature
 from cryptography.hazmat.primitives.hashes import SHA1
 from cryptography.hazmat.primitives.serialization import Encoding
+from cryptography.x509 import ExtensionNotFound
 from cryptography.x509.ocsp import (
     OCSPCertStatus,
     OCSPRequestBuilder,
@@ -19,11 +20,14 @@ OCSP = AuthorityInformationAccessOID.OCSP
 
 
 def get_ocsp_url(certificate):
+    try:
+        aia = certificate.extensions.get_extension_for_oid(AIA).value
+    except ExtensionNotFound:
+        return None
     return next(
         (
             access_description.access_location.value
-            for access_description
-            in certificate.extensions.get_extension_for_oid(AIA).value
+            for access_description in aia
             if access_description.access_method == OCSP
         ),
         None
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index dc40938..37fb12a 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -169,9 +169,9 @@ class ServerWaitClientHello(State):
                 self.nconfig.peer_want_ocsp_stapling
                 and self.ocsp_service
                 and len(self.config.certificate_chain) > 1
+                and (ocsp_url := get_ocsp_url(self.config.certificate_chain[0]))
             ):
                 subject, issuer = self.config.certificate_chain[:2]
-                ocsp_url = get_ocsp_url(subject)
                 ocsp_req = make_ocsp_request(subject, issuer)
                 ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
                 try:
-- 
2.43.0


From 0079c465f6905caf3395846bd99e9dacd399691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 50/66] fix: refuse empty server certificate lists

---
 src/siotls/states/client/wait_certificate.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index bc2053a..8ad319a 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -32,10 +32,9 @@ class ClientWaitCertificate(State):
             super().process(content)
             return
 
-        if self.config.require_peer_authentication:
-            if not content.certificate_list:
-                e = "missing certificate"
-                raise alerts.BadCertificate(e)
+        if not content.certificate_list:
+            e = "missing certificate"
+            raise alerts.BadCertificate(e)
         self._check_certificate_types(content.certificate_list)
         match self.nconfig.server_certificate_type:
             case CertificateType.X509:
-- 
2.43.0


From 9785d5aebc5edca54a3c070d1b7c00ce906d1c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 51/66] fix: verify the A-labels of international hostnames

---
 src/siotls/states/client/wait_certificate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 8ad319a..bb1f99a 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -1,6 +1,7 @@
 from ipaddress import ip_address
 from itertools import pairwise
 
+import idna
 from cryptography import x509
 
 from siotls.contents import alerts
@@ -84,7 +85,8 @@ class ClientWaitCertificate(State):
         try:
             server_ip = ip_address(self.server_hostname)
         except ValueError:
-            subject = x509.DNSName(self.server_hostname)
+            hostname = idna.encode(self.server_hostname, uts46=True)
+            subject = x509.DNSName(hostname.decode())
         else:
             subject = x509.IPAddress(server_ip)
         return self.config.policy_builder.build_server_verifier(subject)
-- 
2.43.0


From e58b51e37b6d7802ecefe1cec374a2d992a60dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 52/66] fix: refuse certificates whose status cannot be fetched

---
 src/siotls/states/client/wait_certificate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index bb1f99a..a224da7 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -112,7 +112,11 @@ class ClientWaitCertificate(State):
                     raise alerts.BadCertificate from exc
             elif self.ocsp_service and (ocsp_url := get_ocsp_url(entry.certificate)):
                 ocsp_req = make_ocsp_request(entry.certificate, issuer.certificate)
-                ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
+                try:
+                    ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
+                except Exception as exc:
+                    e = "cannot fetch the status of the certificate"
+                    raise alerts.BadCertificate(e) from exc
                 try:
                     valid_until = validate_ocsp(issuer.certificate, ocsp_req, ocsp_res)
                 except ValueError as exc:
-- 
2.43.0


From 82bb2b6e1a7d1334bd9642e4b8430b0df393a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 53/66] fix: go on without stapling when the status cannot be
 fetched

---
 src/siotls/states/server/wait_client_hello.py | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 37fb12a..6cb06b0 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -172,21 +172,7 @@ class ServerWaitClientHello(State):
                 and (ocsp_url := get_ocsp_url(self.config.certificate_chain[0]))
             ):
                 subject, issuer = self.config.certificate_chain[:2]
-                ocsp_req = make_ocsp_request(subject, issuer)
-                ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
-                try:
-                    valid_until = validate_ocsp(issuer, ocsp_req, ocsp_res)
-                except ValueError as exc:
-                    self.ocsp_service.uncache(ocsp_req)
-                    w =("error while validating the online status of "
-                        "this server certificate, client likely to "
-                        "reject this connection: %s")
-                    logger.warning(w, exc.args[0])
-                else:
-                    self.ocsp_service.cache(valid_until, ocsp_req, ocsp_res)
-                    certificate_list[0].extensions[
-                        ExtensionType.STATUS_REQUEST
-                    ] = OCSPStatus(ocsp_res)
+                self._staple_status(certificate_list[0], ocsp_url, subject, issuer)
 
         self._send_content(Certificate(b'', certificate_list))
         self._send_content(CertificateVerify(
@@ -196,6 +182,27 @@ class ServerWaitClientHello(State):
             )
         ))
 
+    def _staple_status(self, certificate_entry, ocsp_url, subject, issuer):
+        ocsp_req = make_ocsp_request(subject, issuer)
+        try:
+            ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
+        except Exception:
+            logger.exception("cannot fetch the online status of this server certificate")
+            return
+        try:
+            valid_until = validate_ocsp(issuer, ocsp_req, ocsp_res)
+        except ValueError as exc:
+            self.ocsp_service.uncache(ocsp_req)
+            w =("error while validating the online status of "
+                "this server certificate, client likely to "
+                "reject this connection: %s")
+            logger.warning(w, exc)
+        else:
+            self.ocsp_service.cache(valid_until, ocsp_req, ocsp_res)
+            certificate_entry.extensions[
+                ExtensionType.STATUS_REQUEST
+            ] = OCSPStatus(ocsp_res)
+
     def _send_finished(self):
         self._send_content(Finished(
             self._cipher.sign_finish(self._transcript.digest())
-- 
2.43.0


From d96a719272874876b1e724cb70c8787fdddecf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 54/66] fix: enforce the heartbeat permission of the peer

---
 src/siotls/connection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index dc8251a..08cdcf5 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -5,7 +5,7 @@ import types
 
 from siotls import TLSError, key_logger
 from siotls.crypto.ciphers import TLSCipherSuite
-from siotls.iana import AlertLevel, ContentType, TLSVersion
+from siotls.iana import AlertLevel, ContentType, HeartbeatMessageType, TLSVersion
 from siotls.serial import SerialIO, TLSBufferError
 from siotls.wrapper import WrappedSocket
 
@@ -298,9 +298,10 @@ class TLSConnection:
             e = f"cannot send content in state {self._state.name()}"
             raise TLSError(e)
         if (content.content_type == ContentType.HEARTBEAT
-            and (not self.config.can_send_heartbeat
-                 or self.nconfig and not self.nconfig.can_send_heartbeat)):
+            and content.heartbeat_type == HeartbeatMessageType.heartbeat_request
+            and not (self.nconfig and self.nconfig.can_send_heartbeat)):
             e = "cannot send heartbeat on this connection"
+            raise TLSError(e)
 
         logger.debug("will send %s", type(content).__name__)
         data = content.serialize()
-- 
2.43.0


From 93ce661bd439dc25a6f0ffbff271e087dba752ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 55/66] fix: answer the heartbeats of the peer

---
 src/siotls/states/__init__.py  |  2 --
 src/siotls/states/connected.py | 34 +++++++++++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index b58d569..eab1a86 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -48,8 +48,6 @@ class State(metaclass=abc.ABCMeta):
                     alert.args = (e,)
                     raise alert
                 raise UnknownAlert(alert.description, e)
-        elif content.content_type == ContentType.HEARTBEAT:
-            raise NotImplementedError
         else:
             e =(f"cannot process {type(content).__name__} in state "
                 f"{self.name()}")
diff --git a/src/siotls/states/connected.py b/src/siotls/states/connected.py
index 221c805..c429fab 100644
--- a/src/siotls/states/connected.py
+++ b/src/siotls/states/connected.py
@@ -1,7 +1,13 @@
-from siotls.iana import ContentType
+import contextlib
+import secrets
+
+from siotls.contents import Heartbeat, alerts
+from siotls.iana import ContentType, HeartbeatMessageType
 
 from . import State
 
+HEARTBEAT_MIN_PADDING_LENGTH = 16
+
 
 class Connected(State):
     can_receive = True
@@ -9,8 +15,26 @@ class Connected(State):
     can_send_application_data = True
 
     def process(self, message):
-        if message.content_type != ContentType.APPLICATION_DATA:
-            super().process(message)
-            return
+        match message.content_type:
+            case ContentType.APPLICATION_DATA:
+                self._application_data.extend(message.content_data)
+            case ContentType.HEARTBEAT:
+                self._process_heartbeat(message)
+            case _:
+                super().process(message)
 
-        self._application_data.extend(message.content_data)
+    def _process_heartbeat(self, heartbeat):
+        if heartbeat.heartbeat_type != HeartbeatMessageType.heartbeat_request:
+            return
+        if not self.nconfig.can_echo_heartbeat:
+            e = "heartbeat requests are not allowed on this connection"
+            raise alerts.UnexpectedMessage(e)
+        if len(heartbeat.padding) < HEARTBEAT_MIN_PADDING_LENGTH or not self.can_send:
+            return
+        response = Heartbeat(
+            HeartbeatMessageType.heartbeat_response,
+            heartbeat.payload,
+            secrets.token_bytes(HEARTBEAT_MIN_PADDING_LENGTH),
+        )
+        with contextlib.suppress(ValueError):  # too long to fit in a record
+            self._send_content(response)
-- 
2.43.0


From 949822631697c06e0bc8c5a3f0a8e938bb9ff3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 56/66] fix: answer certificate requests with no certificate

---
 src/siotls/states/client/wait_cert_cr.py  | 6 ++++++
 src/siotls/states/client/wait_finished.py | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/siotls/states/client/wait_cert_cr.py b/src/siotls/states/client/wait_cert_cr.py
index 1197852..735c2ee 100644
--- a/src/siotls/states/client/wait_cert_cr.py
+++ b/src/siotls/states/client/wait_cert_cr.py
@@ -1,3 +1,4 @@
+from siotls.contents import alerts
 from siotls.iana import ContentType, HandshakeType
 
 from .. import State
@@ -19,6 +20,11 @@ class ClientWaitCertCr(State):
             super().process(content)
             return
 
+        if (content.msg_type == HandshakeType.CERTIFICATE_REQUEST
+            and content.certificate_request_context):
+            e = "the certificate request context is only for post-handshake authentication"
+            raise alerts.IllegalParameter(e)
+
         self._move_to_state(
             ClientWaitCertificate,
             must_authentify=(content.msg_type == HandshakeType.CERTIFICATE_REQUEST),
diff --git a/src/siotls/states/client/wait_finished.py b/src/siotls/states/client/wait_finished.py
index 4c81753..55c4a4d 100644
--- a/src/siotls/states/client/wait_finished.py
+++ b/src/siotls/states/client/wait_finished.py
@@ -1,5 +1,5 @@
 from siotls.contents import alerts
-from siotls.contents.handshakes import Finished
+from siotls.contents.handshakes import Certificate, Finished
 from siotls.iana import ContentType, HandshakeType
 
 from .. import Connected, State
@@ -46,4 +46,5 @@ class ClientWaitFinished(State):
         self._move_to_state(Connected)
 
     def _send_certificate(self):
-        raise NotImplementedError
+        # client certificates are not implemented, decline
+        self._send_content(Certificate(b'', []))
-- 
2.43.0


From 1932d5597c89ff902cbbed5885e8c73a37591783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 57/66] fix: freeze the negotiated configuration once connected

---
 src/siotls/states/client/wait_finished.py | 1 +
 src/siotls/states/server/wait_finished.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/siotls/states/client/wait_finished.py b/src/siotls/states/client/wait_finished.py
index 55c4a4d..f780159 100644
--- a/src/siotls/states/client/wait_finished.py
+++ b/src/siotls/states/client/wait_finished.py
@@ -43,6 +43,7 @@ class ClientWaitFinished(State):
             client_finished_transcript_hash,
         )
 
+        self.nconfig.freeze()
         self._move_to_state(Connected)
 
     def _send_certificate(self):
diff --git a/src/siotls/states/server/wait_finished.py b/src/siotls/states/server/wait_finished.py
index 6b87ce7..df3404c 100644
--- a/src/siotls/states/server/wait_finished.py
+++ b/src/siotls/states/server/wait_finished.py
@@ -32,4 +32,5 @@ class ServerWaitFinished(State):
             self._transcript.digest(),
         )
 
+        self.nconfig.freeze()
         self._move_to_state(Connected)
-- 
2.43.0


From deab7e37f2ef180ed2e7e0c13a1c2b3313a673dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 58/66] fix: hand all the data over to the socket

---
 src/siotls/wrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/siotls/wrapper.py b/src/siotls/wrapper.py
index deb42aa..4e09488 100644
--- a/src/siotls/wrapper.py
+++ b/src/siotls/wrapper.py
@@ -15,14 +15,14 @@ class WrappedSocket:
     def do_handhskake(self):
         self.conn.initiate_connection()
         if self.conn.config.side == 'client':
-            self.sock.send(self.conn.data_to_send())
+            self.sock.sendall(self.conn.data_to_send())
         while not self.conn.is_post_handshake():
             if input_data := self.sock.recv(self.conn.max_fragment_length):
                 try:
                     self.conn.receive_data(input_data)
                 finally:
                     if output_data := self.conn.data_to_send():
-                        self.sock.send(output_data)
+                        self.sock.sendall(output_data)
             else:
                 self.conn.close_receiving_end()  # it goes post handshake
 
@@ -34,7 +34,7 @@ class WrappedSocket:
                     self.conn.receive_data(input_data)
                 finally:
                     if output_data := self.conn.data_to_send():
-                        self.sock.send(output_data)
+                        self.sock.sendall(output_data)
                 application_data += self.conn.data_to_read()
             else:
                 self.conn.close_receiving_end()
@@ -42,9 +42,9 @@ class WrappedSocket:
 
     def write(self, data):
         self.conn.send_data(data)
-        self.sock.send(self.conn.data_to_send())
+        self.sock.sendall(self.conn.data_to_send())
 
     def close(self):
         self.conn.close_sending_end()
         if close_notify := self.conn.data_to_send():
-            self.sock.send(close_notify)
+            self.sock.sendall(close_notify)
-- 
2.43.0


From 9f88124922661a2c1c7428e579e56fde0b974ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 59/66] fix: a handshake cut short by the peer is an error

---
 src/siotls/wrapper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/siotls/wrapper.py b/src/siotls/wrapper.py
index 4e09488..a34a4c0 100644
--- a/src/siotls/wrapper.py
+++ b/src/siotls/wrapper.py
@@ -1,3 +1,5 @@
+from siotls import TLSError
+from siotls.states import Failed
 
 
 class WrappedSocket:
@@ -25,6 +27,9 @@ class WrappedSocket:
                         self.sock.sendall(output_data)
             else:
                 self.conn.close_receiving_end()  # it goes post handshake
+        if isinstance(self.conn._state, Failed):
+            e = "connection closed during handshake"
+            raise TLSError(e)
 
     def read(self):
         application_data = self.conn.data_to_read()
-- 
2.43.0


From af46472ff5538c27a37c5cbddc1d4bc97df62d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 60/66] fix: refuse OCSP responses longer than the maximum

---
 src/siotls/ocsp_over_http.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/siotls/ocsp_over_http.py b/src/siotls/ocsp_over_http.py
index 1e7ea5d..050c832 100644
--- a/src/siotls/ocsp_over_http.py
+++ b/src/siotls/ocsp_over_http.py
@@ -62,7 +62,12 @@ def request(url, ocsp_req):
             f"{OCSP_MAX_RESPONSE_SIZE} bytes)")
         raise RuntimeError(e)
 
-    return http_res.read(content_length)
+    # the header can be missing or negative
+    ocsp_res = http_res.read(OCSP_MAX_RESPONSE_SIZE + 1)
+    if len(ocsp_res) > OCSP_MAX_RESPONSE_SIZE:
+        e = f"OCSP response body too large (max {OCSP_MAX_RESPONSE_SIZE} bytes)"
+        raise RuntimeError(e)
+    return ocsp_res
 
 
 def cache(until, ocsp_req, ocsp_res):
-- 
2.43.0


From 2596aadb95ee39ce0380bb659b34d922a676d64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 61/66] fix: refuse the OCSP answers that tell no expiry

---
 src/siotls/crypto/ocsp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index 2c9411c..59a94b2 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -69,6 +69,10 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
         e = "response is not valid yet"
         raise ValueError(e)
 
+    if res.next_update is None:
+        e = "response has no expiry"
+        raise ValueError(e)
+
     if res.next_update < datetime.utcnow():  # noqa: DTZ003
         e = "response is expired"
         raise ValueError(e)
-- 
2.43.0


From 487612e0147d032bdb1d704001ad6828a7105d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 62/66] fix: refuse the OCSP answers of invalid signature with
 ValueError

---
 src/siotls/crypto/ocsp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index 59a94b2..ad52af2 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -94,6 +94,7 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
     try:
         Signature(issuer.public_key()).verify(res.signature, res.tbs_response_bytes)
     except InvalidSignature as exc:
-        raise ValueError(exc.args[0]) from exc
+        e = "invalid signature"
+        raise ValueError(e) from exc
 
     return res.next_update
-- 
2.43.0


From 40c671d69dd228a9905347e598eaae7ad2a80cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 63/66] fix: validate the OCSP answers with any algorithm of
 the issuer's key

---
 src/siotls/crypto/ocsp.py       | 18 +++++++-----------
 src/siotls/crypto/signatures.py | 12 ++++++++----
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index ad52af2..8ba7ed8 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -1,6 +1,6 @@
 from datetime import datetime
 
-from cryptography.exceptions import InvalidSignature
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
 from cryptography.hazmat.primitives.hashes import SHA1
 from cryptography.hazmat.primitives.serialization import Encoding
 from cryptography.x509 import ExtensionNotFound
@@ -77,17 +77,13 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
         e = "response is expired"
         raise ValueError(e)
 
-    if res.signature_algorithm_oid != issuer.signature_algorithm_oid:
-        e = "request and response signature algorithm mismatch"
-        raise ValueError(e)
-
-    if res.signature_hash_algorithm != issuer.signature_hash_algorithm:
-        e = "request and response hash algorithm mismatch"
-        raise ValueError(e)
-
     try:
-        Signature = TLSSignatureSuite.from_signature_oid(res.signature_algorithm_oid)  # noqa: N806
-    except KeyError as exc:
+        Signature = TLSSignatureSuite.for_signature(  # noqa: N806
+            issuer.public_key_algorithm_oid,
+            res.signature_algorithm_oid,
+            res.signature_hash_algorithm,
+        )
+    except (KeyError, UnsupportedAlgorithm) as exc:
         e = "unknown signature algorithm"
         raise ValueError(e) from exc
 
diff --git a/src/siotls/crypto/signatures.py b/src/siotls/crypto/signatures.py
index 8177f57..f706278 100644
--- a/src/siotls/crypto/signatures.py
+++ b/src/siotls/crypto/signatures.py
@@ -21,11 +21,11 @@ _RAW_KEY_OIDS = {
 class TLSSignatureSuite(metaclass=RegistryMeta):
     _pubkey_registry: ClassVar = {}
     _registry: ClassVar = {}
-    _sign_registry: ClassVar = {}
 
     iana_id: SignatureScheme
     pubkey_oid: PublicKeyAlgorithmOID
     sign_oid: SignatureAlgorithmOID
+    digestmod: hashes.HashAlgorithm | None
 
     key: types.PublicKeyTypes | types.PrivateKeyTypes
 
@@ -35,11 +35,13 @@ class TLSSignatureSuite(metaclass=RegistryMeta):
             return
         cls._pubkey_registry.setdefault(cls.pubkey_oid, {})[cls.iana_id] = cls
         cls._registry[cls.iana_id] = cls
-        cls._sign_registry[cls.sign_oid] = cls
 
     @classmethod
-    def from_signature_oid(cls, signature_oid):
-        return cls._sign_registry[signature_oid]
+    def for_signature(cls, public_key_oid, signature_oid, digestmod):
+        for suite in cls._pubkey_registry[public_key_oid].values():
+            if suite.sign_oid == signature_oid and suite.digestmod == digestmod:
+                return suite
+        raise KeyError(signature_oid)
 
     @classmethod
     def for_public_key_oid(cls, public_key_oid):
@@ -187,6 +189,8 @@ class TLS_ECDSA_SECP521R1_SHA512(_ECDSAMixin, TLSSignatureSuite):
 
 
 class _EDMixin:
+    digestmod = None
+
     def sign(self, message):
         return self.key.sign(message)
 
-- 
2.43.0


From 571a2ca97574366935170abb7786607c250eda75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 64/66] fix: count bytes and not characters in Content-Length

---
 src/siotls/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/utils.py b/src/siotls/utils.py
index 2b31291..3f77273 100644
--- a/src/siotls/utils.py
+++ b/src/siotls/utils.py
@@ -74,7 +74,7 @@ def make_http11_request(host: str, method: str, path: str, body: str):
         host=host,
         method=method,
         path=path,
-        length=len(body),
+        length=len(body.encode()),
         body=body
     )
 
@@ -92,7 +92,7 @@ def make_http11_response(code: int, body: str, now: datetime | None = None):
     return HTTP11_RESPONSE.format(
         status=HTTPStatus(code),
         date=format_date_time(now.timestamp() if now else time.time()),
-        length=len(body),
+        length=len(body.encode()),
         body=body,
     )
 
-- 
2.43.0


From d90c4c33a78312097f195beef15e8885b42a294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:29 +0000
Subject: [PATCH 65/66] fix: check revocation and status along the verified
 chain

---
 src/siotls/states/client/wait_certificate.py | 41 ++++++++++++--------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index a224da7..9a7ba9b 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -65,16 +65,21 @@ class ClientWaitCertificate(State):
     def _process_x509(self, content):
         self.nconfig.peer_certificate = content.certificate_list[0].certificate
         if self.config.require_peer_authentication:
-            self._verify_chain(content.certificate_list)
-            self._verify_revocation(content.certificate_list)
-            self._verify_statuses(content.certificate_list)
+            chain = self._verify_chain(content.certificate_list)
+            self._verify_revocation(chain)
+            self._verify_statuses(chain, content.certificate_list)
 
     def _verify_chain(self, certificate_entries):
         leaf, *intermediates = (e.certificate for e in certificate_entries)
         try:
-            self._get_verifier().verify(leaf, intermediates)
+            verified = self._get_verifier().verify(leaf, intermediates)
         except x509.verification.VerificationError as exc:
             raise alerts.BadCertificate from exc
+        # the verified chain, it is up to the trust anchor and without
+        # the irrelevant certificates that the peer might have sent
+        if isinstance(verified, x509.verification.VerifiedClient):
+            return verified.chain
+        return verified
 
     def _get_verifier(self):
         if not self.server_hostname:
@@ -91,34 +96,38 @@ class ClientWaitCertificate(State):
             subject = x509.IPAddress(server_ip)
         return self.config.policy_builder.build_server_verifier(subject)
 
-    def _verify_revocation(self, certificate_entries):
+    def _verify_revocation(self, chain):
         if not self.config.revocation_list:
             return
         is_revoked = self.config.revocation_list.get_revoked_certificate_by_serial_number
-        for entry in certificate_entries:
-            if is_revoked(entry.certificate.serial_number):
-                e = f"{entry.certificate} found in revocation list"
+        for certificate in chain:
+            if is_revoked(certificate.serial_number):
+                e = f"{certificate} found in revocation list"
                 raise alerts.BadCertificate(e)
 
-    def _verify_statuses(self, certificate_entries):
-        for entry, issuer in pairwise(certificate_entries):
-            status = entry.extensions.get(ExtensionType.STATUS_REQUEST)
+    def _verify_statuses(self, chain, certificate_entries):
+        statuses = {
+            entry.certificate: entry.extensions.get(ExtensionType.STATUS_REQUEST)
+            for entry in certificate_entries
+        }
+        for certificate, issuer in pairwise(chain):
+            status = statuses.get(certificate)
             if status and status.status_type == CertificateStatusType.OCSP:
-                ocsp_req = make_ocsp_request(entry.certificate, issuer.certificate)
+                ocsp_req = make_ocsp_request(certificate, issuer)
                 ocsp_res = status.ocsp_response
                 try:
-                    validate_ocsp(issuer.certificate, ocsp_req, ocsp_res)
+                    validate_ocsp(issuer, ocsp_req, ocsp_res)
                 except ValueError as exc:
                     raise alerts.BadCertificate from exc
-            elif self.ocsp_service and (ocsp_url := get_ocsp_url(entry.certificate)):
-                ocsp_req = make_ocsp_request(entry.certificate, issuer.certificate)
+            elif self.ocsp_service and (ocsp_url := get_ocsp_url(certificate)):
+                ocsp_req = make_ocsp_request(certificate, issuer)
                 try:
                     ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
                 except Exception as exc:
                     e = "cannot fetch the status of the certificate"
                     raise alerts.BadCertificate(e) from exc
                 try:
-                    valid_until = validate_ocsp(issuer.certificate, ocsp_req, ocsp_res)
+                    valid_until = validate_ocsp(issuer, ocsp_req, ocsp_res)
                 except ValueError as exc:
                     self.ocsp_service.uncache(ocsp_req)
                     raise alerts.BadCertificate from exc
-- 
2.43.0


From 96489ce5bf6bef7aa60eb6f3623ca190f999676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 66/66] fix: negative read size crosses the limit of the stream

---
 src/siotls/serial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/serial.py b/src/siotls/serial.py
index 56cf3a7..444204a 100644
--- a/src/siotls/serial.py
+++ b/src/siotls/serial.py
@@ -55,7 +55,7 @@ class SerialIO(io.BytesIO):
 
     def read(self, n=None):
         max_n = self._limits[-1] - self.tell()
-        if n is None:
+        if n is None or n < 0:
             if len(self._limits) > 1:
                 n = max_n
         elif n > max_n:
-- 
2.43.0

