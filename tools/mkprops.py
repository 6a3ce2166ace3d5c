import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
FP="src/frame_protector/s2a_frame_protector.cc"; CR="src/record_protocol/s2a_crypter.cc"; HC="src/record_protocol/s2a_half_connection.cc"
HM="src/record_protocol/handshake_message_handler.cc"; PX="src/handshaker/s2a_proxy.cc"; CX="src/handshaker/s2a_context.cc"; UT="src/handshaker/s2a_util.cc"
OP="src/options/s2a_options.cc"; TS="src/record_protocol/s2a_upb_ticket_sender.cc"; TM="src/token_manager/single_token_access_token_manager.cc"
AG="src/crypto/aes_gcm_crypter.cc"; CO="src/crypto/chacha_poly_crypter_openssl.cc"; CB="src/crypto/chacha_poly_crypter_boringssl.cc"; HK="src/crypto/hkdf.cc"; CU="src/record_protocol/s2a_crypter_util.cc"

p("C01","Protected bytes arrive complete, in order and exactly once",
 "For two endpoints created from matching session secrets, whatever sequence of writes of any sizes (including empty ones) is protected on one side, and however the network delays, splits or joins the resulting bytes before whole records are handed over (in any grouping and any scatter/gather layout), the concatenation of what the other side's unprotect calls return equals exactly the bytes written, in both directions at once. The size promised for a write equals the number of bytes it produces, no record is larger than the advertised maximum, and once the network stops stalling everything written is delivered.",
 ["inputs","histories","schedules","configurations"],
 "Every ciphersuite, both call styles (library-allocated and caller-supplied buffers), every write size and buffer layout (including zero-length pieces), every interleaving of the two directions, every segmentation and delay of the network.",
 "The unit tests push one or a few fixed-size writes through a single layout; they never vary layouts, sizes around the 2^14 record limit, grouping of records and interleaving of both directions together.",
 [FP,CR,HC,"include/s2a_frame_protector.h"],
 [("splitting of a write into records of at most 2^14 bytes and walk over the scatter/gather input","S2AFrameProtector::Protect"),("deframing of concatenated records across buffers","S2AFrameProtector::Unprotect, ComputeTlsRecordSize, IsolateTlsPayload")],
 [("current_iovec_index/on_iovec_index","position in the input buffers",FP)],["return values and buffers of Protect/Unprotect/NumberBytesToProtect/MaxRecordSize"])

p("C02","Tampered, reordered, replayed or truncated records never yield data",
 "Whatever an attacker on the network does to the record stream (bit flips, header edits, drops, duplicates, reordering, truncation, splicing, replay, reflection of our own records, forged records), the bytes returned successfully before the first reported error are a prefix of what the peer really sent, and every call that consumes an affected record reports an error and returns no data. When a record fails authentication, its decrypted content is not left in any buffer handed back to the caller or released.",
 ["inputs","histories","fault_sequences"],
 "Every attacker action at every byte of every record position in a session, in any combination, for every ciphersuite and buffer layout, including a partial record, surplus bytes after a record, and a too small output buffer.",
 "Tests corrupt one byte of one hand-made record; they do not explore where in a session, in which buffer layout and in which combination the corruption happens, nor what is left in buffers.",
 [FP,CR,HC,AG,CO,CB],
 [("AEAD tag check over header as additional data with a per-record nonce","S2AHalfConnection::Decrypt, *Crypter::Decrypt"),("zeroing of output on failure","S2ACrypter::Unprotect ZeroOutIovec; DecryptCheckTagAndFinalize"),("rejecting partial records","S2AFrameProtector::Unprotect")],
 None,["status and bytes of Unprotect; contents of the output buffer and of buffers passed to the destroy callback"])

p("C03","No key ever encrypts two records under the same nonce",
 "Over the whole life of a connection, no two encryption attempts are made with the same key and nonce, whatever mix of successful writes, failed writes, library failures and outbound key updates occurs, and each emitted record uses the next position of its key epoch starting from the sequence number given at creation (zero after a key update). When the 64-bit record counter is exhausted, every further protect or unprotect fails until the key is changed, instead of wrapping around.",
 ["histories","fault_sequences","schedules","configurations"],
 "Every history of protect calls (including concurrent ones), outbound key updates and injected failures, every starting sequence number including the last few before 2^64.",
 "Tests check a handful of nonces from fixed starting sequences; they do not combine failures, key updates and counter exhaustion.",
 [HC,CR,FP],
 [("nonce masking and increment, overflow latch","S2AHalfConnection::NonceMask"),("sequence reset on key change","S2AHalfConnection::UpdateKey")],
 [("sequence_","next record number of the epoch",HC),("has_sequence_overflowed_","latched when the counter wraps",HC)],["(key, nonce) pairs reaching the cryptographic library; record position that decrypts each emitted record"])

p("C04","Records interoperate with an independent TLS 1.3 implementation",
 "Every record produced decrypts, under keys derived from the session secret as RFC 8446 prescribes, to exactly the written bytes followed by the right content type, with a well-formed header and at most 2^14 bytes of content; and every well-formed record an RFC 8446 peer may send (any content size up to the limit, any amount of zero padding, empty records) is accepted and returns exactly its content.",
 ["inputs","histories","configurations"],
 "Every ciphersuite, secret, starting sequence number, content, padding and number of preceding key updates, in both directions.",
 "Tests compare against a few recorded records; a symmetric mistake (label, nonce, header, padding) would pass any self-to-self test and fixed vectors cover only a few sizes.",
 [CR,HC,FP,HK,CU,AG,CO,CB],
 [("key, nonce and next-secret derivation","S2AHalfConnection DeriveKey/DeriveNonce/AdvanceSecret"),("header construction and padding removal","S2ACrypter::Protect/Unprotect")],
 None,["wire bytes"])

p("C05","Inbound keys change exactly once, at the end of each key update message",
 "When the peer sends key update messages interleaved with application data and session tickets, and splits or coalesces these handshake messages over records in any permitted way, every record is read with the right key: the inbound key changes exactly once per complete key update message and never on a part of one. The local outbound key changes only on explicit request, exactly once per request, and the two directions never affect each other.",
 ["histories","inputs","schedules"],
 "Every sequence of application data, tickets and key updates, every fragmentation of the handshake bytes over records (down to one byte per record), any number of updates, every ciphersuite.",
 "Tests send one key update in one record; fragmentation across records and repeated updates mixed with data and tickets are not explored.",
 [CR,HC,HM],
 [("key update detection and inbound UpdateKey","S2ACrypter::HandleProcessHandshakeMessageResult"),("reassembly","HandshakeMessageHandler::ProcessHandshakeMessage")],
 [("traffic_secret_","current generation of the secret",HC)],["success and content of Unprotect for the records that follow"])

p("C06","Session tickets are handed to S2A exactly once, complete and in order",
 "The complete tickets of the first run of session tickets a peer sends (all those up to the next application data, at most five) are handed over in one batch, exactly once per connection, in order and byte for byte, together with the connection's own id, address and local identity, no matter how they are fragmented, coalesced or mixed with key updates; later tickets are ignored and tickets never appear as application data. Destroying the connection first waits for an outstanding hand-over and survives its failure, and the request built for S2A carries exactly these tickets, id and identity.",
 ["histories","inputs","schedules","fault_sequences"],
 "Every number and size of tickets, every fragmentation over records, every point at which data, key updates, connection end or sender failure occur.",
 "Tests use a few fixed ticket sequences with at most simple splits; they do not explore the limit of five combined with fragments, key updates and data at arbitrary points.",
 [CR,HM,TS,"src/record_protocol/s2a_ticket_sender.h"],
 [("ticket phase machine","S2ACrypter::HandleProcessHandshakeMessageResult"),("ticket store and limit","HandshakeMessageHandler::AddTicketToStore/GetStoredTickets"),("wait before destruction","S2ACrypter::~S2ACrypter")],
 [("phase","tickets not received / receiving / done","src/record_protocol/s2a_crypter.h")],["arguments received by the ticket sender; calls to its wait function; serialized request"])

p("C07","Only application data is delivered; alerts and close end the stream",
 "Alerts, handshake bytes, records of unknown or missing type and empty handshake records never contribute bytes to the data returned to the application; alert records, malformed alerts, unknown types, typeless records and application data arriving inside an unfinished handshake message are reported as errors. After a close-notify alert every later unprotect call fails without returning data, for the rest of the connection's life, while protecting outbound data keeps working.",
 ["histories","inputs"],
 "Every sequence of record types, alert codes, sizes and paddings from an authenticated peer, at any point of the session, grouped into calls in any way.",
 "Tests feed single hand-made control records to a fresh connection; orders, groupings with data in one call, and behaviour long after the alert are not explored.",
 [CR,FP,HM],
 [("record type dispatch","S2ACrypter::Unprotect"),("close latch","S2ACrypter close_notify_received_")],
 [("close_notify_received_","set when the peer closed","src/record_protocol/s2a_crypter.h")],["status and bytes of Unprotect"])

p("C08","A connection may be written and read concurrently without races",
 "Threads that write and read the same connection at the same time (one reader and any number of writers, while inbound key updates, tickets and alerts arrive), behave as if the calls had happened one after another: there is no data race, use after free or deadlock, every produced record is distinct and valid, and each direction's data stays complete and ordered. Separate connections used from different threads do not affect each other.",
 ["schedules","histories"],
 "Every interleaving of the threads at the granularity of individual memory accesses and lock operations.",
 "The existing tests are single threaded; no test executes two calls at once.",
 [FP,CR,HC,"include/s2a_frame_protector.h"],
 [("per-direction locks","S2AFrameProtector protect_mu_/unprotect_mu_, S2AHalfConnection mu_")],
 [("mu_","guards a half connection","src/record_protocol/s2a_half_connection.h")],["race detector over every instrumented access; results of the calls"])

p("C09","Handshake bytes are relayed unchanged and S2A failures are contained",
 "Through any handshake of any number of round trips, the bytes relayed to S2A are exactly the bytes received from the peer and the bytes relayed to the peer are exactly those produced by S2A, with the consumed count S2A reported, and the first message to S2A is a single start message for the right role followed only by next messages. A malformed, truncated, error-carrying or missing response from S2A, or missing peer bytes, is reported as an error with no bytes to send, does not crash, and does not disturb the session's state, so that a later correct message continues the handshake; several sessions in one process do not affect each other.",
 ["histories","inputs","fault_sequences","schedules"],
 "Every message content and length (binary, empty, large), every number of rounds, every corruption, error status, truncation, loss or retry at any step, any interleaving of several client and server sessions.",
 "Tests exercise one canned exchange and two canned error responses; they do not explore arbitrary content or failures at arbitrary steps with recovery.",
 [PX,UT,"src/proto/s2a.proto"],
 [("start/next selection","S2AProxy::GetBytesForS2A"),("response parsing and status check","S2AProxy::GetBytesForPeer")],
 [("is_first_message_","whether the start message was produced",PX)],["decoded requests at the S2A stub; ProxyStatus values"])

p("C10","A session exists only after S2A's valid result and matches it exactly",
 "A connection object and a session context can be obtained only after S2A returned a complete, valid handshake result; before that, and after invalid results (missing parts, unsupported version or ciphersuite), asking for them gives an error and never crashes, and the handshake is reported finished only when a valid result was received; secrets of the wrong size never yield a connection object. The connection then uses exactly the secrets, sequence numbers, ciphersuite, connection id and identity of that result, and the context reports exactly the result's protocol, version, ciphersuite, identities, fingerprints and resumption flag. One result gives one connection and one context: asking again gives an error, never a null object or a second connection that would reuse the keys and sequence numbers.",
 ["histories","inputs","fault_sequences"],
 "Every response sequence, including results with any subset of fields missing or out of range, at any step, followed by any order of calls, for every ciphersuite, sequence number and secret.",
 "Tests use one valid canned result and two invalid ones; partial results followed by requests for the connection are not explored, and the key material is never exercised against a peer.",
 [PX,UT,CX,FP],
 [("result validation","S2AProxy::GetBytesForPeer"),("gating","S2AProxy::CreateFrameProtector/GetS2AContext")],
 [("is_handshake_finished_, result_, context_","outcome of the handshake",PX)],["IsHandshakeFinished, CreateFrameProtector, GetS2AContext; records exchanged with a reference peer holding the same secrets"])

p("C11","The start request carries exactly the configured options",
 "The first request sent to S2A states exactly the configured application protocol, minimum and maximum version, ordered ciphersuites, identities with their kinds and (for a client) target name, whatever bytes these strings contain, and a client configured with more than one local identity gets an error instead. Copying options gives an independent snapshot: later changes to either copy, at any moment of a session, never affect the other or a session already created from it.",
 ["configurations","inputs","histories"],
 "Every combination of options, sizes and strings, both roles, every moment of copying and later mutation.",
 "Tests use one fixed configuration for each role.",
 [PX,OP,UT],
 [("request construction","S2AProxy::GetClientStart/GetServerStart"),("deep copy","S2AOptions::Copy")],
 None,["decoded start request at the S2A stub"])

p("C12","Access tokens accompany requests under the right identities only",
 "Every request to S2A carries, for each local identity for which a token could be obtained, that identity's token byte for byte, and no other token; without local identities it carries the default token. After S2A names the local identity it selected, requests carry only that identity's token if it can be obtained, and otherwise keep the tokens known so far; failure to obtain a token never fails the handshake.",
 ["histories","fault_sequences","configurations"],
 "Every set of identities, every pattern of token failures and recoveries over the steps, with or without a token manager, every selected identity (configured or not) at any step.",
 "Tests use a token manager that always succeeds with one token; failures, recovery and selection are not combined.",
 [PX,"include/access_token_manager.h",TM],
 [("token cache rules","S2AProxy::PopulateTokenCache")],
 [("token_cache_","tokens obtained so far",PX),("selected_local_identity_","identity S2A picked",PX)],["auth mechanisms in decoded requests; calls seen by the token manager"])

p("C13","A session context survives being stored and read back",
 "A session context that is serialized and read back, possibly after being stored or sent elsewhere, has exactly the same protocol, version, ciphersuite, identities, fingerprints (arbitrary binary bytes) and resumption flag. If the stored bytes were truncated or corrupted, reading them back either gives an error or a context equal to what those bytes encode; it never crashes or reads outside them.",
 ["inputs","fault_sequences"],
 "Every field value (including empty strings, zero bytes and any fingerprint) and every truncation, bit flip, torn or swapped stored copy.",
 "Tests use text fingerprints of one fixed context and one garbage input.",
 [CX,UT],
 [("serialization","S2AContext::GetSerializedContext"),("parsing","GetS2AContextFromSerializedContext")],
 None,["accessors of the restored context"])

p("C14","Every buffer is released or returned exactly once",
 "Every buffer the library obtains from the application's allocator is, when the call returns, either handed to the caller in the result or released through the application's release callback, exactly once and with its original address, on success and on every failure (malformed or partial records in any position, authentication failure, allocator failure, library failure). Buffers supplied by the caller are never released by the library, nothing is read outside the input pieces or written outside the output buffer, and no memory is leaked by failed calls.",
 ["histories","inputs","fault_sequences"],
 "Every call history, every failing step within a call, every layout of input pieces including empty and null-based empty ones, every allocator behaviour.",
 "Tests do not track allocator calls on failure paths and do not inject failures in the middle of multi-record calls.",
 [FP,CR,AG,CO,CB],
 [("destroy calls on error paths","S2AFrameProtector::Protect/Unprotect")],
 None,["ledger behind the allocate/release callbacks; address sanitizer"])

p("C15","A failing cryptographic library causes an error, never bad output or a crash",
 "If any call into the cryptographic library fails, at any point of creating a connection, protecting, unprotecting or updating keys, the operation concerned reports an error (or succeeds with correct output), returns no data, leaks nothing and does not crash. After a key update that failed part-way, that direction refuses all further work forever rather than continuing with a stale or half-updated key, and the other direction is unaffected.",
 ["fault_sequences","histories","configurations"],
 "Failure of any single call or set of calls into the library, at any operation of any history, for every ciphersuite.",
 "Tests cannot make the library fail; none of these paths is executed today.",
 [AG,CO,CB,HK,HC,CR,"src/crypto/s2a_aead_crypter_util.cc"],
 [("return value checks","all callers of the library"),("always-fail latch","S2AHalfConnection::UpdateKey")],
 [("always_fail_aead_operations_","set when a key update failed",HC)],["statuses and outputs; live library contexts"])

p("C16","AEAD results do not depend on buffer layout or on earlier operations",
 "For every key, nonce, additional data and text, encrypting gives exactly the standard AEAD result and decrypting it gives back exactly the text with the exact byte count, however inputs are split into pieces (including empty ones) and whatever succeeded, failed or was aborted before on the same or other instances. Any altered text, tag, nonce or additional data, wrong lengths, missing pieces or too small output give an error without writing outside the output buffer or leaving unauthenticated text in it.",
 ["histories","inputs","fault_sequences"],
 "Every operation history (with failures of the library injected between and inside operations), every split of every input, every size, all three ciphers, both cryptographic libraries.",
 "Tests use fixed vectors on fresh instances with one or two splits.",
 [AG,CO,CB,"src/crypto/s2a_aead_crypter.cc"],
 [("per-operation re-initialisation of the context","*InitContextUsingNonce"),("tag reassembly over pieces","*Crypter::Decrypt")],
 [("ctx_","library context reused across operations",AG)],["CrypterStatus and output buffer"])

p("C17","Secret derivation is exact or reports an error",
 "For every supported hash, secret and context, deriving an output of any permitted length gives exactly the HKDF-Expand result, also when a secret of the hash's own length is replaced in place (as a key update does), and requests that are too long or secrets that are too short give an error. If a step inside the library fails, an error is reported and no handle is leaked; a result is never reported as successful unless it is exact, and later derivations are unaffected.",
 ["inputs","fault_sequences","histories"],
 "Every output length up to and beyond the limit, every secret and context length, every failing step, any history of earlier derivations.",
 "Tests use three fixed vectors; no library failure can be produced.",
 [HK,CU],
 [("block loop and checks","HkdfDeriveSecret")],None,["status and output"])

p("C18","Handshake messages are recovered whatever their fragmentation",
 "A stream of handshake messages fed in pieces of any sizes yields the same messages as when fed whole: after each piece the reported 'more expected' state, the number of complete tickets and the key update type are those of a whole-stream parse, and the stored tickets are the exact ticket messages in order, at most five. Message types other than ticket and key update, empty messages, bytes after a key update in the same piece and retrieval while a ticket is incomplete or after retrieval give an error, without memory errors or hanging state.",
 ["inputs","histories"],
 "Every message sequence, size and fragmentation, and any retrieval point.",
 "Tests cover a few hand-written splits.",
 [HM,"src/record_protocol/handshake_message_handler.h"],
 [("two-state reassembly","ProcessHandshakeMessage")],
 [("num_header_bytes_expecting_to_read_, num_data_bytes_expecting_to_read_, message_fragments_","reassembly state",HM)],["Result and GetStoredTickets"])

p("C19","The environment token is captured once and safely shared",
 "A token manager created from the process environment keeps returning the token (byte for byte) or the not-found error determined at its creation, for every identity and for the default token, whatever happens to the environment later and from however many threads it is asked; managers created at different moments each keep their own value.",
 ["schedules","histories","configurations"],
 "Every interleaving of creating managers, changing the environment and asking for tokens from several threads.",
 "Tests create one manager and ask once from one thread.",
 [TM,"include/access_token_manager.h"],
 [("capture in the constructor","SingleTokenAccessTokenManager")],[("token_","captured token or error",TM)],["returned tokens"])

p("C20","Handshake state may be driven and observed from several threads",
 "Threads that concurrently feed peer bytes, feed S2A responses and poll for completion on one handshake session see results equal to some one-after-another order of these calls, with no data race or deadlock. Once a thread observes completion, the first to ask immediately obtains the connection and the context, complete and correct, and later requests get an error; sessions driven by different threads at the same time do not affect each other.",
 ["schedules","histories"],
 "Every interleaving of the threads at the granularity of individual memory accesses and lock operations, for both roles and with failing responses in between.",
 "The existing tests are single threaded.",
 [PX,"include/s2a_proxy.h"],
 [("session lock","S2AProxy mu_")],[("is_handshake_finished_","completion flag read under the lock",PX)],["race detector; decoded requests; results"])

p("C21","Option enumerations convert one-to-one to the wire and back",
 "Each supported TLS version, ciphersuite and identity kind converts to its own wire value and back to itself, each ciphersuite names the hash prescribed for it, and unsupported values are refused.",
 ["inputs"],
 "Every enumeration value.",
 "The existing tests do cover it, the domain being a few values; it is listed for completeness.",
 [UT,CU],[("switch statements","ConvertTlsVersionToProto etc., CiphersuiteToHashFunction")])
p("C22","Secrets stay out of logs, error messages and stored contexts",
 "Whatever fails and at whatever moment, no text the library hands to the log callback or returns in an error shows any part of a traffic secret, a key derived from it, an access token or the contents of a record, neither as it is nor in a printable form. Stored session contexts and requests to S2A contain no traffic secret.",
 ["fault_sequences","inputs","histories"],
 "Every failure (of the cryptographic library, the allocator, S2A, the token source, the peer or the network) at every point of a session, for every content.",
 "Tests compare a few messages; none looks for secrets in the messages of failures it cannot produce.",
 [CR,FP,HC,PX],
 [("messages to the log callback and in returned statuses","logger_ and Status of every operation")],None,["log callback, returned statuses, serialized context, requests to S2A"])

p("C23","A long life does not accumulate memory",
 "A connection or handshake session that keeps repeating the same kinds of calls holds a bounded amount of memory, however often they are repeated: records, tickets after the first run, key updates in both directions, alerts, rejected records, failed calls, handshake rounds and error responses leave nothing behind. Connections that were destroyed leave nothing behind either.",
 ["histories","fault_sequences"],
 "Every sequence of calls repeated any number of times, between which no message is left incomplete.",
 "Tests make a handful of calls per connection and never look at the memory held.",
 [CR,HM,HC,FP,PX],
 [("reassembly buffer and ticket store","HandshakeMessageHandler"),("per-connection state","S2ACrypter, S2AHalfConnection, S2AProxy")],None,["bytes held by the library at the ends of cycles"])

p("C24","Connections and sessions in one process do not affect each other",
 "However many connections and handshake sessions a process creates, uses and destroys, in any interleaving and from different threads, each behaves exactly as if it were the only one: failures, key updates, closures, tickets, tokens, cryptographic-library errors and destruction of one do not change what another returns, sends or accepts. This also holds between the two ends of one connection in the same process and between connections with the same identifier, address and identity.",
 ["schedules","histories","configurations","fault_sequences"],
 "Every set of connections and sessions, every interleaving of their calls (down to memory accesses when they run in threads), with failures and attacks on some of them.",
 "Tests use one object at a time, from one thread.",
 [CR,HC,AG,CO,CB,FP,HM,PX],
 [("state owned by the object, none shared","every class with members; no mutable statics")],None,["each connection judged against its own reference peer"])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
import re
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
    n=len(re.findall(r"[.](?:\s|$)",d["statement"])); assert n<=3,(d["id"],n)
print(len(P))
