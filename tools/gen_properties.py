#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["src/siotls/" + f for f in files],
            "state": [{"name": n, "meaning": m, "where": "src/siotls/" + w} for n, m, w in state],
            "mechanism": [{"name": n, "where": "src/siotls/" + w} for n, w in mech],
            "observe_at": observe, "hook_needed": None,
        }})
H = "contents/handshakes/"
X = H + "extensions/"

p("W01", "Length-prefixed wire primitives never read past the end and round-trip",
  "Reading an integer, a length-prefixed vector, a list of integers or a list of vectors from a byte stream returns exactly the bytes that the length field announces and advances the stream by exactly that much; whenever fewer bytes are present, a list does not split evenly, or a nested limit would be crossed, a TLS buffer error is raised and nothing beyond the stream or the limit is ever returned. Writing a value and reading it back yields the same value, and a value too large for its length field is refused rather than truncated.",
  ["inputs"], "every byte string, every field width, every nesting of limits, every list of items within the bounds",
  "test_serial reads a few hand-written buffers; boundary lengths (0, exact, one short, one long) of every primitive and every combination with a nested limit are not sampled.",
  ["serial.py"], [("bounded reads and limits", "serial.py:SerialIO"), ("two-way list helpers", "serial.py:read_listvar/write_listvar")],
  ["return value, stream position and exception of the stream methods"])
p("W02", "Every message that can be built survives serialise-then-parse unchanged",
  "Serialising any handshake message, extension, alert, heartbeat, application data or change-cipher-spec that the library lets an application build, and parsing the result in the handshake it belongs to, yields an equal message and consumes every byte. The length fields of the serialised form are exactly the lengths of what follows them.",
  ["inputs"], "every message type and every field value (integers over their whole range, byte strings and lists within the bounds)",
  "the unit tests compare a handful of captured messages; no test varies the field values, and several extension serialisers have no test at all.",
  ["contents/alerts.py", "contents/heartbeat.py", H + "client_hello.py", H + "server_hello.py", H + "certificate.py", H + "certificate_request.py", H + "certificate_verify.py", H + "encrypted_extensions.py", H + "finished.py", X + "__init__.py", X + "key_share.py", X + "pre_shared_key.py", X + "server_name.py", X + "status_request.py", X + "use_srtp.py"],
  [("serialize/serialize_body and parse/parse_body pairs", H + "__init__.py:Handshake"), ("extension codec registry", X + "__init__.py:Extension")],
  ["bytes returned by serialize(), message returned by parse()"])
p("W03", "Accepted wire bytes are consumed completely and mean exactly one message",
  "Whatever bytes the parser of a message accepts, the accepted message re-serialises to exactly those bytes (unprintable application protocol names, undecodable host names and repeated identical entries, which are skipped, the letter case of host names and the DER encoding inside certificates and public keys excepted). No trailing byte, inner-length mismatch or duplicate that changes the meaning is silently accepted.",
  ["inputs"], "every byte string within the bounds, for each content type, handshake type and extension type",
  "tests feed well-formed messages only; that no malformed variant is accepted is a claim over all byte strings.",
  ["serial.py", H + "__init__.py", H + "client_hello.py", H + "server_hello.py", X + "__init__.py"],
  [("stream.limit around each body", H + "__init__.py:Handshake.parse"), ("assert_eof after each content", "connection.py:receive_data")],
  ["parse() result and exception, serialize() of the result"])
p("W04", "Hostile bytes can only cause a TLS alert, never an internal error",
  "Whatever bytes the peer sends, in whatever state the connection is, receiving them either succeeds or raises one of the library's TLS alert errors with the connection failed and the matching fatal alert queued for the peer; malformed structure is reported as a decode error, illegal value or other peer-fault alert. No other exception type and no 'internal error' alert is ever caused by the content of the peer's bytes.",
  ["inputs", "histories"], "every record and handshake message content within the bounds, in each connection state",
  "each test sends one specific malformed message; the claim covers all of them.",
  ["connection.py", "contents/__init__.py", "contents/alerts.py", H + "__init__.py", X + "__init__.py"],
  [("translation of parser errors to alerts", "connection.py:receive_data"), ("ValueError to IllegalParameter in parsers", X + "key_share.py")],
  ["exception type of receive_data, data_to_send"])
p("W05", "Extensions are only accepted in the handshake messages that may carry them",
  "A known extension found in a handshake message that is not allowed to carry it is refused with an illegal-parameter alert, and an extension of unknown type is kept opaque and ignored in every message. What one connection receives never changes how a later message or another connection is parsed.",
  ["inputs", "histories"], "every (extension type, handshake type) pair, every unknown extension number, every prior history of parsed messages within the bounds",
  "tests exercise only legitimate placements and never parse on two connections in the same process after a strange message.",
  [X + "__init__.py", "contents/alerts.py"],
  [("registry per handshake type", X + "__init__.py:Extension.parse")],
  ["exception/return of parse in a later connection"],
  [("extension and alert registries", "process-wide tables of known codecs", X + "__init__.py:_extension_registry")])

p("R01", "Every record sent is well-formed and within the negotiated size limit",
  "For any content of any length, the bytes queued for sending are a sequence of records whose header length equals the record body and never exceeds the negotiated maximum fragment length (plus only the AEAD expansion allowance once encrypted, with the encrypted plaintext including its type and padding within the limit the peer enforces). Concatenating the plaintext of these records gives exactly the serialised content, and content that may not be fragmented is refused instead of split.",
  ["inputs", "configurations"], "every data length up to several records, every maximum fragment length, every cipher tag length",
  "tests send a few short strings; lengths where the last fragment exactly fills a padding block are never hit.",
  ["connection.py"], [("fragmentation", "connection.py:_send_content"), ("padding", "connection.py:_encrypt")],
  ["data_to_send()"])
p("R02", "Application data arrives complete, in order and unmodified",
  "Whatever sequence of byte strings one side sends after the handshake, the other side reads exactly their concatenation, in both directions, however the transport cuts the byte stream and whatever record padding was used. Reading returns each byte once and reading again returns only newer bytes.",
  ["inputs", "schedules"], "every number and length of writes, every content, every padding length, every cut of the stream, within the bounds",
  "tests transfer one short message delivered whole.",
  ["connection.py", "states/connected.py", "contents/application_data.py"],
  [("inner plaintext unpadding", "connection.py:_decrypt"), ("application buffer", "states/connected.py:Connected.process")],
  ["data_to_read() of the peer"])
p("R03", "How the transport splits the byte stream does not change the outcome",
  "Delivering the same bytes in one piece or cut into any pieces gives the same messages, the same replies, the same final state and the same data to read; bytes that complete a message are always processed as soon as they arrive, and an incomplete record or message is kept, without effect, until the rest arrives.",
  ["schedules", "inputs"], "every cut position of streams of records (empty, short and long fragments, several records per delivery)",
  "tests always deliver whole flights.",
  ["connection.py"], [("record buffering", "connection.py:_read_next_record"), ("handshake buffering", "connection.py:_read_next_content")],
  ["state, data_to_send and data_to_read after each delivery"],
  [("_input_data/_input_handshake", "bytes kept between deliveries", "connection.py:TLSConnection")])
p("R04", "Over-long records are refused with record_overflow before being used",
  "A record whose announced length exceeds the maximum fragment length (plus 256 bytes once encrypted) is refused with a fatal record-overflow alert as soon as its header is known, and so is a decrypted record whose plaintext exceeds the limit; a record at the limit is accepted. The peer can thus never make the connection buffer more than one maximum record of undecoded data.",
  ["inputs", "configurations"], "every 16-bit length, every negotiated maximum, encrypted or not",
  "no test sends an over-long record.",
  ["connection.py", "contents/alerts.py"], [("length check", "connection.py:_read_next_record")],
  ["exception and alert sent"])
p("R05", "Fragmented handshake messages are reassembled exactly, never interleaved",
  "A handshake message split over any number of records is processed exactly as if it had come in one record, and any other content (alert, application data, change-cipher-spec content, heartbeat) found inside it is refused with unexpected-message (except the one-byte compatibility change-cipher-spec record, which is skipped during the handshake). A handshake message is acted upon only when all its announced bytes are present.",
  ["inputs", "schedules"], "every split of a handshake message in records, every interleaved content type and position",
  "tests fragment a single ClientHello one way.",
  ["connection.py"], [("reassembly", "connection.py:_read_next_content")],
  ["message processed, exception"])
p("R06", "Tampered, reordered, replayed or dropped records are never delivered",
  "Once encryption is on, a received record is accepted only if it is the very next record the peer sent under the current keys, bit for bit, header included; anything else ends the connection with a bad-record-mac alert and none of its content is delivered or acted upon. Records protected with keys of another direction, another stage or another connection are likewise refused, and so is everything unprotected (except, during the handshake, the one-byte compatibility change-cipher-spec record, which is skipped).",
  ["inputs", "histories"], "every modification of header, body or tag, every permutation/replay/omission of up to three records",
  "tests never alter a record in flight.",
  ["connection.py", "crypto/ciphers.py"], [("AEAD open with header as associated data and sequence nonce", "crypto/ciphers.py:TLSCipherSuite.decrypt")],
  ["exception, data_to_read, alert sent"])

p("K01", "A nonce is never used twice with the same key",
  "For each key, the n-th record protected uses nonce IV xor n with n counting from zero, on both the sending and the receiving side, for every cipher suite; a key change restarts the count and only together with a new key. When a key's usage limit is reached the connection stops using it instead of repeating a nonce.",
  ["inputs", "histories"], "every IV value, every sequence number up to the usage limit, every cipher suite",
  "tests send a few records and never look at nonces; limits of 2^23.5 and 2^64 are unreachable.",
  ["crypto/ciphers.py", "utils.py"], [("sequence iterators", "crypto/ciphers.py:_next_write_nonce/_next_read_nonce"), ("peekable", "utils.py:peekable")],
  ["nonce argument given to the AEAD"],
  [("_write_seq/_read_seq", "next sequence numbers", "crypto/ciphers.py:TLSCipherSuite")])
p("K02", "The key schedule is the one of RFC 8446 and both sides agree on it",
  "Given the same shared secret and transcript hashes, the keys, IVs and finished keys derived by either side are those of the TLS 1.3 key schedule, the client's write keys being the server's read keys and vice versa, for the handshake and application stages. Keys of different directions, stages, secrets or transcripts are never the same value, and the early and handshake stages can be neither skipped nor repeated.",
  ["inputs", "configurations"], "every shared secret, transcript hash and cipher suite",
  "interoperability tests only show agreement for the sampled runs with OpenSSL-like peers; they cannot show distinctness or agreement for all values.",
  ["crypto/ciphers.py", "crypto/hkdf.py"], [("extract/derive chain", "crypto/ciphers.py:_TLSSecrets"), ("role assignment", "crypto/ciphers.py:TLSCipherSuite.derive_handshake_secrets")],
  ["keys given to the AEAD, verify_data"])
p("K03", "HKDF follows RFC 5869 / RFC 8446 for every salt, key, info and length",
  "Extract is HMAC with the salt as key (zeros when absent), expand is the concatenation of the counter-suffixed HMAC blocks cut at the asked length, and the labelled form encodes length, 'tls13 ' label and context unambiguously. Lengths beyond 255 blocks or fields beyond their size are refused.",
  ["inputs"], "every salt, key, info, label and context within the bounds, every output length up to and beyond 255 blocks, each hash",
  "the test vectors fix a handful of lengths; block-boundary lengths are not covered.",
  ["crypto/hkdf.py"], [("hkdf_expand", "crypto/hkdf.py:hkdf_expand"), ("hkdf_expand_label", "crypto/hkdf.py:hkdf_expand_label")],
  ["returned bytes"])
p("K04", "The transcript hash covers exactly the handshake messages, in order",
  "At every point where the handshake uses a transcript hash, it is the hash (of the negotiated algorithm) of every handshake message sent and received so far, complete with headers, in order and once each, the first ClientHello being replaced by its message-hash form after a retry. Records, alerts and application data never enter it, and both sides hold the same value.",
  ["inputs", "histories", "configurations"], "every message content and size within the bounds, every offered set of cipher suites, with or without retry",
  "tests only check that handshakes with a peer succeed for the default configuration.",
  ["transcript.py", "connection.py"], [("Transcript.update on send and receive", "transcript.py:Transcript"), ("retry rewrite", "transcript.py:do_hrr_dance")],
  ["digests given to the key schedule, finished and certificate verify"])
p("K05", "Key exchange rejects degenerate peer values and both sides agree",
  "For every group, a peer share that is not a valid element (wrong length, not on the curve, all-zero result, finite-field value outside 2..p-2) is refused with an alert and never yields a shared secret; finite-field shares and secrets keep the full length of the prime, leading zeros included. Both sides compute the same secret from each other's shares.",
  ["inputs"], "every peer share value, every finite-field group",
  "tests only exchange honest keys; a share with leading zero bytes appears once in 256 runs.",
  ["crypto/key_exchanges.py", "states/server/wait_client_hello.py", "states/client/wait_server_hello.py"],
  [("range check", "crypto/key_exchanges.py:_FFDHEMixin.resume"), ("fixed-length encoding", "crypto/key_exchanges.py:_FFDHEMixin.init")],
  ["return/exception of the key exchange, alert"])

p("S01", "Handshake messages are accepted only in the order TLS 1.3 allows",
  "A connection reaches the connected state only after receiving exactly the messages of a legal TLS 1.3 handshake, each in its place and under the right protection; any other message, in any state, is refused with unexpected-message (a message of a type the library does not know, with some peer-fault alert) and the connection fails. No message can be skipped, repeated or injected.",
  ["histories", "inputs"], "every sequence of message types up to the length of a handshake, in each role",
  "each test takes the straight path or one wrong message in one state.",
  ["states/__init__.py", "states/client/wait_cert_cr.py", "states/client/wait_certificate.py", "states/client/wait_server_hello.py", "states/server/wait_client_hello.py", "states/server/wait_finished.py", "transcript.py"],
  [("per-state process()", "states/__init__.py:State.process"), ("global order", "transcript.py:ORDER")],
  ["is_connected(), exception, alert"])
p("S02", "No connection completes unless the peer's Finished proves the same transcript",
  "A side moves to connected only after receiving a Finished message whose verify data is exactly the HMAC, under the peer's finished key, of the transcript up to that message; any other value, of any length, fails the connection with a decrypt-error alert before any application key is used.",
  ["inputs"], "every verify_data byte string within the bounds, in each role",
  "tests only receive right Finished messages.",
  ["crypto/ciphers.py", "states/client/wait_finished.py", "states/server/wait_finished.py"],
  [("constant time comparison", "crypto/ciphers.py:verify_finish")],
  ["is_connected(), alert"])
p("S03", "The client accepts only parameters it offered",
  "The client goes on only if the server's version, cipher suite, key-share group, application protocol, maximum fragment length and certificate types are ones the client itself offered, and the session identifier echoed is its own; anything else is refused with the matching alert. What the connection then uses and reports is exactly what the server selected.",
  ["inputs", "configurations"], "every value of each selection field, every client configuration within the bounds",
  "tests sample one wrong value for some of the fields.",
  ["states/client/wait_server_hello.py", "states/client/wait_encrypted_extensions.py", "states/client/start.py"],
  [("_negociate_* methods", "states/client/wait_encrypted_extensions.py:ClientWaitEncryptedExtensions")],
  ["nconfig, alert"])
p("S04", "The server selects, by its own preference, only mutually supported parameters",
  "For every ClientHello the server either picks, for each of cipher suite, group, signature algorithm, certificate type, application protocol, the first of its own preference list that the client offers (and that its key can sign with), or fails with the matching alert when there is none; a mandatory extension that is missing (versions, groups, signature algorithms; without a key share a retry is asked for) is reported as such. The selection never depends on the client's order and unknown values offered by the client are ignored.",
  ["inputs", "configurations"], "every offered list (known and unknown values) and every server preference order within the bounds",
  "tests use a few fixed offers.",
  ["states/server/wait_client_hello.py"], [("_negociate_* methods", "states/server/wait_client_hello.py:ServerWaitClientHello")],
  ["nconfig, ServerHello/EncryptedExtensions sent, alert"])
p("S05", "A hello retry happens at most once, consistently, and still connects both sides",
  "When the client's first key share does not suit, the server asks exactly once for a group the client supports, the client answers with one share of that group, the same random and the cookie it was given, and the handshake completes with both sides agreeing on every key. A second retry request, a retry for a group not offered or already shared, a changed random or cipher suite is refused with an alert.",
  ["inputs", "histories", "configurations"], "every second hello, every retry content, every pair of configurations within the bounds",
  "no test runs a retry between two endpoints of the library.",
  ["states/client/wait_server_hello.py", "states/server/wait_client_hello.py", "transcript.py"],
  [("do_hrr_dance", "transcript.py:Transcript"), ("config narrowing", "states/client/wait_server_hello.py:_process_hello_retry_request")],
  ["is_connected on both sides, alert"])
p("S06", "Application data is never sent nor accepted without the final keys",
  "Application data is sent only encrypted under application-traffic keys, and received data is delivered to the application only if it was decrypted under application-traffic keys of a completed handshake. In every other state, including a connection closed or failed before the handshake completed, sending is refused with an error and received application data is refused or ignored.",
  ["histories", "inputs"], "every sequence of API calls and received records up to the bound, in each state and role",
  "tests try sending early in one state.",
  ["connection.py", "states/closed.py", "states/server/wait_finished.py", "states/__init__.py"],
  [("can_send_application_data flags", "states/__init__.py:State"), ("Closed state", "states/closed.py:Closed")],
  ["data_to_send(), data_to_read(), exceptions"])
p("S07", "A fatal error is final: one alert, then silence",
  "When a connection fails because of what it received, exactly one fatal alert matching the error (protected when keys are on) is queued, the connection is failed for good, and from then on it sends nothing more, delivers no data, ignores whatever is received, and refuses to send. The error the application sees is the same as the alert sent.",
  ["histories", "inputs"], "every failing input and every sequence of further API calls and received records within the bounds",
  "tests stop at the first exception.",
  ["connection.py", "states/failed.py"], [("_fail", "connection.py:_fail"), ("Failed state", "states/failed.py:Failed")],
  ["data_to_send(), data_to_read(), exception"])
p("S08", "Closing is orderly in each direction and truncation is visible",
  "Closing the sending side sends one close-notify and nothing after it, while the other direction keeps working until the peer closes or the transport ends; after a close-notify was received, or the receiving side was closed, nothing received later is delivered. A transport end or close-notify before the handshake completed makes the connection failed, never connected.",
  ["histories"], "every order of local close, peer close, transport end, sends and receives within the bounds",
  "tests close once, in one order.",
  ["connection.py", "states/closed.py", "states/__init__.py"],
  [("close_sending_end/close_receiving_end", "connection.py"), ("Closed", "states/closed.py")],
  ["data_to_send(), data_to_read(), is_connected()"])
p("S09", "Alerts from the peer end or keep the connection as their level demands",
  "A fatal alert of any description received from the peer ends the connection at once with an error naming that description, sends nothing back and delivers nothing more; a warning other than close-notify changes nothing. Alert descriptions the library does not know are handled by the same rules; a close-notify is a closure whatever its level.",
  ["inputs", "histories"], "every level and every description byte, in each state and role",
  "tests send one or two alerts.",
  ["states/__init__.py", "contents/alerts.py", "connection.py"],
  [("State.process", "states/__init__.py:State.process"), ("Alert.parse", "contents/alerts.py:Alert.parse")],
  ["exception, data_to_send(), state"])
p("S10", "The peer is authenticated exactly as the configuration demands",
  "A client configured with a trust store or trusted keys connects only if the server's chain verifies for the expected host name against the store and is not revoked (or its raw key is trusted) and the server's CertificateVerify is a valid signature, by that very key and with an algorithm the client offered that suits the key, over this handshake's transcript and the server context string. Every failure ends in a certificate or decrypt-error alert, never an internal error, and nothing weaker is accepted without a configured trust.",
  ["inputs", "configurations"], "every verdict of chain, revocation, status and signature checks, every algorithm number and signature, each certificate type",
  "tests only meet good certificates and one untrusted.",
  ["states/client/wait_certificate.py", "states/client/wait_certificate_verify.py", "configuration.py"],
  [("_verify_chain/_verify_revocation/_verify_statuses", "states/client/wait_certificate.py"), ("CertificateVerify check", "states/client/wait_certificate_verify.py")],
  ["is_connected(), alert, nconfig.peer_certificate"])
p("S11", "The negotiated maximum fragment length is agreed and obeyed by both sides",
  "When the client asks for a smaller maximum fragment length, the server echoes exactly it and both sides then send no fragment larger and refuse any larger one; when it is not asked for, both use 16384 bytes. Code and octet forms of the extension correspond to 512, 1024, 2048 and 4096 only.",
  ["inputs", "configurations"], "every code byte, every configured length, every content length",
  "one test negotiates one value and never sends data.",
  [X + "max_fragment_length.py", "states/server/wait_client_hello.py", "states/client/wait_encrypted_extensions.py", "states/client/start.py", "connection.py"],
  [("max_fragment_length property", "connection.py:max_fragment_length"), ("code/octets mapping", X + "max_fragment_length.py")],
  ["extension in ClientHello/EncryptedExtensions, sizes of records"])

p("A01", "Only good, current, matching and signed OCSP answers are accepted",
  "A certificate status answer is accepted only if it is successful, says good, answers for the very certificate and issuer asked about, is within its validity period now (an answer that tells no expiry is refused), and is correctly signed by the issuer with a known algorithm of its key; such an answer is accepted and the returned expiry is the one of the answer. Every other answer is refused as invalid, with no other kind of failure. A server asks the service its certificate names, staples only an answer that is accepted and only for the clients that ask for one, and goes on without when there is none.",
  ["inputs"], "every combination of answer fields, instants and signature verdicts",
  "the tests contain no OCSP answer at all.",
  ["crypto/ocsp.py"], [("validate_ocsp", "crypto/ocsp.py:validate_ocsp"), ("ServerWaitClientHello._staple_status", "states/server/wait_client_hello.py")],
  ["return value or ValueError", "Certificate message of the server"])
p("A02", "The OCSP fetch cache is bounded and never serves stale or foreign answers",
  "After any sequence of cache, un-cache and request operations, a request returns a cached answer only if it was stored for that very request and has not expired, otherwise it fetches; the cache never holds more than its fixed number of entries. A fetched answer is never longer than the fixed maximum, only plain http URLs are contacted, and a wrongly typed or over-long response is refused.",
  ["histories", "inputs"], "every history of operations and every clock reading within the bounds, every Content-Length and Content-Type",
  "not tested at all.",
  ["ocsp_over_http.py"], [("cache eviction", "ocsp_over_http.py:cache"), ("size limit", "ocsp_over_http.py:request")],
  ["returned answer, number of entries, bytes read"],
  [("_cache/_cache_limits", "process-wide cache and expiry heap", "ocsp_over_http.py")])
p("A03", "Inconsistent configurations are refused, consistent ones are honoured",
  "A configuration lacking cipher suites, groups or signature algorithms, a server without private key or without certificate and public key, a server with a custom maximum fragment length, and a client with server-side host names are refused with an error at construction; all others are accepted. Certificates types offered and accepted are exactly those for which material is configured, and peer authentication is required exactly when some trust is configured.",
  ["configurations"], "every combination of present/absent settings on both sides",
  "tests build a few valid and invalid configurations.",
  ["configuration.py", "connection.py"], [("__post_init__", "configuration.py:TLSConfiguration")],
  ["exception at construction, properties"])
p("A04", "The socket wrapper delivers everything in order whatever the socket does",
  "Through the wrapper, every byte the connection queues is handed to the socket once and in order even when the socket accepts only part of a write, what is read is what the peer sent, an end of stream is reported as empty read, and the alert caused by a failure is still flushed. A handshake cut short by the peer is an error and not a usable connection.",
  ["schedules", "fault_sequences"], "every partial-write size, every chunking of reads, end of stream at every point, within the bounds",
  "tests use a local socket that never writes partially.",
  ["wrapper.py"], [("WrappedSocket", "wrapper.py:WrappedSocket")],
  ["bytes the fake socket received, return values"])
p("A05", "Secrets are logged only on request, and then exactly the NSS key log lines",
  "Unless key logging is requested in the configuration, no secret is ever given to any logger; when it is requested, each handshake logs once per side the handshake and application traffic secrets of both directions and the exporter secret, with the client random of that connection, under their standard labels, and nothing else.",
  ["configurations", "inputs"], "every secret and random value, logging on or off, each role and suite",
  "tests compare one log with one peer.",
  ["crypto/ciphers.py", "__init__.py"], [("key_logger calls", "crypto/ciphers.py:derive_handshake_secrets")],
  ["records emitted by the loggers"])
p("A06", "What the connection reports as negotiated is true on both sides and stays fixed",
  "Once connected, both endpoints report the same cipher suite, group, application protocol, maximum fragment length, signature algorithm and server certificate type, these are the ones in use, and they can no longer be modified. Heartbeat permission reported by one side is what the other side announced.",
  ["configurations", "histories"], "every pair of configurations within the bounds",
  "tests read one or two fields on one side.",
  ["configuration.py", "states/client/wait_encrypted_extensions.py", "states/client/wait_server_hello.py", "states/server/wait_client_hello.py"],
  [("TLSNegotiatedConfiguration", "configuration.py")],
  ["nconfig of both connections"])
p("A07", "Helper iterators, dumps and HTTP messages are faithful for every input",
  "Peeking never consumes or loses an element; the hexadecimal dump of any bytes contains exactly these bytes in the documented layout, 16 per line at increasing offsets; the generated HTTP requests and responses announce the exact number of body bytes; the system trust store path is the first known one among the distribution and its relatives.",
  ["inputs"], "every interleaving of peek and next, every byte string, body text and release description within the bounds",
  "doc-examples only.",
  ["utils.py", "trust_store.py"], [("peekable", "utils.py:peekable"), ("hexdump", "utils.py:hexdump"), ("make_http11_*", "utils.py"), ("get_ca_certificates_path", "trust_store.py")],
  ["return values"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P), "properties")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
