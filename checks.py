"""What each check runs: variants with the number of runs of the quick tier, and what the evidence says about them."""
QUICK_S = 100       # wall-clock cap of the exploration, quick tier
THOROUGH_S = 780    # same, thorough tier

_REC_REAL = ['S2AFrameProtector / S2ACrypter / S2AHalfConnection', 'HandshakeMessageHandler', 'AES-GCM and ChaCha20-Poly1305 crypters',
             'HKDF', 'PrepareResumptionTicketReq', 'OpenSSL (variant ossl) or BoringSSL (variant bssl) libcrypto']
_REC_STUB = ['network and peer process (simulated; the peer is an independent TLS 1.3 record implementation in sim/tlsref.h, in C01 a second real endpoint)',
             'SendTicketsToS2A transport (captured at link time; upstream is an empty TODO)', 'application allocator/logger callbacks',
             'upb runtime (shim in upb_shim/, because upb is not installed)']
_REC_ASSUME = ['AES-GCM, ChaCha20-Poly1305, HMAC and SHA-2 of the installed SSL libraries compute the standard functions (cross-checked by sim/refcrypto.cc)',
               'faults of the SSL library appear as failed calls (return 0/null), before or after doing their work']
_BOTH = lambda n: [('ossl', n), ('bssl', n)]


def _rec(n, rule, real=None, stub=None, assume=None, variants=None):
    return dict(variants=variants or _BOTH(n), rule=rule, real=real or _REC_REAL, stub=stub or _REC_STUB, assume=assume or _REC_ASSUME)

_PX = lambda n: dict(variants=[('ossl', n)], real=['S2AProxy', 'S2AOptions', 'S2AContext', 's2a_util conversions', 'S2AFrameProtector and record layer for the resulting connection'],
                     stub=['S2A service, peer and application (simulated)', 'access token source (simulated)', 'channel factory (never used upstream)', 'upb runtime (shim in upb_shim/)'],
                     assume=['the upb runtime decodes and encodes the protobuf wire format as the shim does'])

_SCHED = lambda n: [('sched', n), ('sched_bssl', n)]
_SCHED_STUB = ['threads, mutexes, condition variables and once-initialisation (simulated: cooperative fibres under a seeded preemptive scheduler)']
_SCHED_ASSUME = ['threads interleave at instrumented memory accesses of the code under test and at synchronisation calls; the SSL library runs atomically between those',
                 'weak-memory effects beyond sequential consistency appear only as data races, which are detected by happens-before vector clocks']


PROPS = {
    'C01': _rec(36000, 'One run = one seeded session of two real endpoints over a simulated network that delays, stalls, splits and joins bytes in both directions; non-trivial when at least one network fault or unusual layout occurred; distinct by the sequence of (actor, operation, size class, outcome) steps.'),
    'C02': _rec(32000, 'One run = one seeded session of a real endpoint with a reference peer and an attacker editing the record stream; non-trivial when at least one attack was applied; distinct by the sequence of steps, attacks and outcomes.'),
    'C03': _rec(28000, 'One run = one seeded history of protect calls, outbound key updates, failures and starting sequence numbers (incl. near 2^64); non-trivial when a fault, key update or exhaustion occurred; distinct by the sequence of steps and outcomes.'),
    'C04': _rec(15000, 'One run = one seeded session against an independent TLS 1.3 record implementation in both directions with varying content sizes, padding and key generations; distinct by the sequence of steps.'),
    'C05': _rec(15000, 'One run = one seeded session in which the peer mixes data, tickets and key updates and fragments/coalesces handshake bytes over records; non-trivial when a handshake message was fragmented, coalesced or a key changed; distinct by the sequence of steps.'),
    'C06': _rec(15000, 'One run = one seeded session in which tickets of many sizes are fragmented, coalesced and mixed with key updates and data, with the ticket channel failing or stalling and the connection destroyed at any point; distinct by the sequence of steps.'),
    'C07': _rec(28000, 'One run = one seeded session in which an authenticated peer sends alerts, malformed alerts, unknown and typeless records and close at any point and in any grouping; distinct by the sequence of steps.'),
    'C14': _rec(40000, 'One run = one seeded session with allocator failures, library failures, malformed, truncated and tampered records in any position and layout, with every allocation and release accounted; distinct by the sequence of steps and faults.'),
    'C15': _rec(30000, 'One run = one seeded session in which chosen calls into the SSL library fail before or after doing their work, during creation, protect, unprotect and key updates; non-trivial when a fault fired; distinct by the sequence of steps and faults.'),
    'C16': _rec(60000, 'One run = one seeded history of encrypt/decrypt calls on 1-4 real crypter instances with random layouts, tampered inputs, wrong lengths, missing pieces, small outputs and failing library calls; distinct by the sequence of (operation, algorithm, defect, size class, outcome).',
                real=['AES-GCM crypter, ChaCha20-Poly1305 crypter (OpenSSL or BoringSSL implementation)', 'SSL library'], stub=['none'], assume=_REC_ASSUME),
    'C17': _rec(40000, 'One run = one seeded history of derivations with random hash, secret, context and output sizes, aliasing and failing library calls; distinct by the sequence of (sizes, aliasing, outcome).',
                real=['HkdfDeriveSecret', 'HMAC of the SSL library'], stub=['none'], assume=_REC_ASSUME),
    'C18': _rec(12000, 'One run = one seeded stream of handshake messages (tickets, key updates, invalid ones) fed in pieces to one or two handlers, with retrievals at any point; distinct by the sequence of (piece size class, outcome, pending state).',
                real=['HandshakeMessageHandler'], stub=['none'], assume=['the peer may send any bytes'], variants=[('ossl', 200000)]),
    'C09': _rec(0, 'One run = 1-3 interleaved handshake sessions driven by a seeded application, peer and S2A that sends correct, duplicate, erroneous, truncated, corrupted or missing responses; distinct by the sequence of (session, call, outcome).', **_PX(110000)),
    'C10': _rec(0, 'One run = 1-3 interleaved sessions whose S2A returns valid and invalid results; the connection and context are requested at any moment and used; distinct by the sequence of (session, call, outcome).', **_PX(110000)),
    'C11': _rec(0, 'One run = 1-3 sessions with random options whose originals and copies are changed at any moment; every request is decoded independently; distinct by the sequence of (session, call, outcome).', **_PX(110000)),
    'C12': _rec(0, 'One run = 1-3 sessions with a token source that fails and recovers per identity while S2A selects identities; distinct by the sequence of (session, call, outcome).', **_PX(110000)),
    'C13': _rec(0, 'One run = one store of serialized contexts with reads of undamaged, truncated, bit-flipped, torn, shortened and lengthened copies; distinct by the sequence of (operation, kind, outcome).',
                real=['S2AContext', 'GetS2AContextFromSerializedContext', 's2a_util conversions'], stub=['upb runtime (shim in upb_shim/)', 'storage (simulated)'],
                assume=['the upb runtime decodes and encodes the protobuf wire format as the shim does'], variants=[('ossl', 300000)]),
    'C08': _rec(0, 'One run = one connection (sometimes two) with 1-4 writer threads, one reader and key-update/close threads, scheduled at every lock operation and memory access by a seeded preemptive scheduler; non-trivial when two threads interleaved inside a call; distinct by the schedule and call history.',
                variants=_SCHED(160000), stub=_REC_STUB + _SCHED_STUB, assume=_REC_ASSUME + _SCHED_ASSUME),
    'C19': _rec(0, 'One run = several managers created at different moments by threads while the environment changes between creations, queried from all threads; distinct by the schedule and call history.',
                variants=[('sched', 1500000)], real=['SingleTokenAccessTokenManager and its factory'], stub=['process environment (getenv seam)'] + _SCHED_STUB, assume=_SCHED_ASSUME),
    'C20': _rec(0, 'One run = one or two handshake sessions driven by threads feeding peer bytes, feeding S2A responses, polling and asking for the connection/context; distinct by the schedule and call history.',
                variants=[('sched', 350000)], real=['S2AProxy', 'S2AOptions', 'S2AContext', 's2a_util', 'record layer of the resulting connection'],
                stub=['S2A service and peer (simulated)', 'upb runtime (shim in upb_shim/)', 'access token source (simulated)'] + _SCHED_STUB, assume=_SCHED_ASSUME),
}
PROPS['C03']['variants'] += [('sched', 120000), ('sched_bssl', 120000)]
PROPS['C22'] = _rec(0, 'One run = one seeded session (record layer or handshake) in which everything fails that can; every log line and error message is searched for the secrets, keys, tokens and data of the run; non-trivial when a fault occurred; distinct by the sequence of steps.',
                    real=_REC_REAL + ['S2AProxy, S2AContext'], stub=_REC_STUB + ['S2A service and access token source (simulated)'], variants=_BOTH(12000))
PROPS['C23'] = _rec(0, 'One run = one connection or session that repeats a seeded cycle of calls 400 to 1000 times; the memory held by the library is compared at the ends of cycles; distinct by the cycle.',
                    real=_REC_REAL + ['S2AProxy, S2AContext'], stub=_REC_STUB + ['S2A service and access token source (simulated)'], variants=_BOTH(1100))
PROPS['C24'] = _rec(0, 'One run = several connections (or handshake sessions) that come and go in one process, interleaved call by call or, in the sched variants, each in its own preempted thread; each is judged against its own reference peer; distinct by the sequence of steps.',
                    real=_REC_REAL + ['S2AProxy, S2AOptions'], stub=_REC_STUB + _SCHED_STUB + ['S2A service (simulated)'], assume=_REC_ASSUME + _SCHED_ASSUME,
                    variants=_BOTH(9000) + [('sched', 40000), ('sched_bssl', 40000)])
