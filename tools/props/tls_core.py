TC='crates/tls-core/src/'
PBT='property-based testing: '
prop("C01","TLS handshake messages survive the wire unchanged",
 "Encoding any well-formed handshake message (any TLS 1.2 or 1.3 message kind, with known and unknown extensions and code points) produces exactly the bytes the TLS RFCs prescribe, and decoding those bytes gives back a message with the same content. The same holds for every other record payload (alerts, change-cipher-spec, application data), and for messages built directly through the library's types.",
 ["inputs"],"for every well-formed handshake message, alert and other payload, TLS 1.2 or 1.3 context, and every list length and field value up to the wire limits",
 "The existing tests decode a handful of captured or hand-built messages; they do not vary lengths, unknown values, combinations of extensions or the TLS 1.2/1.3 context.",
 [TC+'msgs/handshake.rs',TC+'msgs/codec.rs',TC+'msgs/base.rs',TC+'msgs/enums.rs',TC+'msgs/message.rs',TC+'msgs/alert.rs',TC+'msgs/ccs.rs'],
 [("typed codec for every message","msgs/handshake.rs Codec impls"),("length-prefixed vectors","msgs/codec.rs, msgs/base.rs")],
 ["HandshakeMessagePayload::get_encoding/read_version","Message/PlainMessage conversions"],
 PBT+"generated messages against an independent RFC encoder/parser, round-trip both ways",
 "About 10^5-10^6 generated messages per run against an independently written encoder and strict parser; trusts that model.")
prop("C02","Malformed handshake bytes are refused, never misread and never crash",
 "For every byte string, the handshake decoder either returns a message whose meaning is the one the bytes have by the TLS grammar, or refuses it; it never panics, never reads beyond the declared lengths, and never silently drops trailing bytes inside a structure whose length is declared. Truncating a well-formed message anywhere, or making any of its length fields disagree with its content, makes it be refused.",
 ["inputs"],"for every byte string: arbitrary ones, and every truncation, extension, bit flip, splice and length edit of well-formed messages",
 "Existing tests truncate a few fixed messages; the space of malformed inputs is unbounded.",
 [TC+'msgs/handshake.rs',TC+'msgs/codec.rs',TC+'msgs/message.rs'],
 [("bounded sub-readers and leftover checks","msgs/codec.rs Reader; msgs/handshake.rs read functions"),("top-level length check","msgs/message.rs MessagePayload::new")],
 ["HandshakeMessagePayload::read_version","Message::try_from"],
 PBT+"structured mutation fuzzing against an independent strict parser (differential)",
 "Differential against an independent parser on mutated and random inputs; trusts that parser where the RFC leaves leniency.")
prop("C03","Records are framed exactly and illegal headers are refused",
 "A record is accepted exactly when its content type is one of the five known, its version is 0x03XX, and its length is legal (below 18432, and zero only for application data), whatever the other header fields are; an incomplete record is reported as incomplete and never as illegal or accepted. An accepted record carries exactly the declared body and consumes exactly its own bytes, and encoding it reproduces them.",
 ["inputs"],"for every record header value and every body length present, up to the maximum record size",
 "Existing tests try three or four headers; all 2^16 versions and lengths and their combinations matter.",
 [TC+'msgs/message.rs',TC+'msgs/codec.rs'],
 [("header validation","msgs/message.rs OpaqueMessage::read")],["OpaqueMessage::read/encode"],
 PBT+"generated and exhaustively enumerated record headers against a reference record parser",
 "All 2^16 versions and lengths and all 2^8 types enumerated singly, combinations sampled (about 2.5 million per run).")
prop("C04","Record reassembly does not depend on how the transport delivers bytes",
 "Whatever the sizes of the reads, transport errors, not-ready results or abandoned asynchronous reads in between, the sequence of records delivered from a byte stream is the one in the stream: none lost, duplicated, reordered or altered, each available as soon as its last byte has arrived. A stream that stops being a sequence of legal records is flagged when the illegal header has arrived, after delivering all records before it, and whether more data is pending is reported truthfully.",
 ["histories","fault_sequences","inputs"],"for every stream of records (well-formed, damaged or cut), every partition into reads, every interleaving of errors, not-ready and consumer drains, synchronous or asynchronous",
 "Existing tests feed a few fixed streams in a few fixed chunkings; delivery histories are unbounded.",
 [TC+'msgs/deframer.rs',TC+'msgs/message.rs'],
 [("buffering and consumption of whole records","msgs/deframer.rs MessageDeframer")],["MessageDeframer::read/read_async, frames, desynced, has_pending"],
 PBT+"model-based stateful testing over generated delivery histories",
 "About 4*10^5 delivery histories per run, invariants after every step; async polled by hand with a no-op waker (no real reactor).")
prop("C05","Fragmentation cuts messages into legal records that add up to the message",
 "For every accepted fragment-size setting, a message is cut into records that carry its type and version, none longer than the setting allows, no more of them than necessary, all full except possibly the last, and their bodies concatenated are exactly the message body. A fragment size outside the legal range is refused and the legal range is accepted.",
 ["inputs","configurations"],"for every message length, content type, version and fragment-size setting",
 "Existing tests use two message sizes and a handful of settings.",
 [TC+'msgs/fragmenter.rs'],[("chunking","msgs/fragmenter.rs MessageFragmenter")],["MessageFragmenter::fragment, fragment_borrow, new"],
 PBT+"generated lengths around multiples of the limit, partition invariants",
 "Lengths and limits sampled around every multiple of the limit.")
prop("C06","Handshake messages are reassembled the same way for all record boundaries",
 "For every sequence of handshake messages, cut into records at any positions (also several messages in one record), the messages delivered are exactly the original ones in order, each as soon as its last byte has arrived and with its exact original encoding retained. A message that is malformed or too large is refused, a message not yet complete is kept pending, and records of other types are not touched.",
 ["histories","inputs"],"for every sequence of handshake messages and every partition of it into records",
 "Existing tests cover five hand-made cuts.",
 [TC+'msgs/hsjoiner.rs',TC+'msgs/handshake.rs'],[("buffering of partial messages","msgs/hsjoiner.rs HandshakeJoiner")],["HandshakeJoiner::want_message/take_message/frames/is_empty"],
 PBT+"model-based stateful testing over generated cut positions",
 "About 1.5*10^5 sequences per run plus every single cut point of some thousands of sequences.")
prop("C07","A server certificate chain is accepted exactly when it is acceptable",
 "The certificate verifier accepts a server for a name and a time exactly when the presented chain leads, through correctly signed, currently valid certificates that may act as authorities (basic constraints, path length, key usage for servers, name constraints, no unknown critical extension), to one of the given trust anchors, and the end-entity certificate is valid for that name (exact match or one left-most wildcard label). Neither extra certificates, their order nor decoys change the verdict; and when a certificate transparency policy is set, a server failing it is refused too.",
 ["inputs","configurations"],"for every chain, set of trust anchors, server name, verification time and combination of defects",
 "The existing tests verify a few recorded chains at one time; defects and their combinations, boundaries of validity and name matching are not varied.",
 [TC+'verify.rs',TC+'anchors.rs',TC+'dns.rs',TC+'key.rs'],
 [("chain and name verification","verify.rs WebPkiVerifier::verify_server_cert"),("trust anchors","anchors.rs RootCertStore")],
 ["ServerCertVerifier::verify_server_cert"],
 PBT+"generated PKIs with injected defects against a reference path validator (differential)",
 "About 1.2*10^5 generated PKIs per run; the reference validator restates RFC 5280/6125 for the feature set generated (no CRLs, no IP names).")
prop("C08","A handshake signature is accepted only if the certificate's key made it",
 "A signature over the handshake is accepted exactly when it was made over those very bytes by the key in the presented certificate, under an algorithm and key type that the named signature scheme allows (in TLS 1.3 also with the exact curve of the scheme, and never with PKCS#1 v1.5 or SHA-1), and the scheme was one the verifier offers. The algorithm reported for a verified signature is the one that key and hash really used.",
 ["inputs"],"for every message, key of every supported type, scheme code point, hash and padding, and every alteration of message, signature or key",
 "The existing tests verify a handful of captured signatures under their own scheme; mismatching schemes, keys and altered inputs form the space that matters.",
 [TC+'verify.rs',TC+'msgs/handshake.rs'],
 [("scheme to algorithm tables and checks","verify.rs verify_tls12_signature, verify_tls13_signature, convert_scheme")],
 ["verify_tls12_signature","verify_tls13_signature","ServerCertVerifier default methods"],
 PBT+"signatures made with OpenSSL, presented under every scheme and altered; oracle is the construction",
 "About 1.5*10^5 signatures per run and all 65536 scheme code points; relies on OpenSSL for signing.")
prop("C09","The TLS 1.2 pseudo-random function equals RFC 5246",
 "For every secret, label, seed and requested length the key-derivation function fills the output with exactly the bytes that the RFC 5246 PRF with SHA-256 defines, whatever was in the output before, and a shorter output is a prefix of a longer one.",
 ["inputs"],"for every secret, label, seed (empty ones included) and output length",
 "Existing tests check one published vector; block boundaries and empty inputs are not covered.",
 [TC+'prf.rs'],[("P_hash expansion","prf.rs prf")],["prf::prf"],
 PBT+"differential against an independent HMAC/P_hash",
 "About 6*10^5 inputs per run, lengths concentrated at block boundaries.")
prop("C10","Negotiation picks the right suite, scheme and parameters",
 "Given a client's offers and a server's ordered preferences, the chosen cipher suite is the first by the stated order of preference that both have, suites are kept or dropped exactly by version and by signature type, and the signature schemes chosen are exactly those offered that fit the suite. Every supported suite carries the key exchange, cipher, hash, nonce layout and versions its standard prescribes.",
 ["inputs","configurations"],"for every list of offered code points (known, unknown, repeated, reordered), every list of supported suites, versions and schemes",
 "Existing tests check two pairs of lists; preference order and filtering are statements about all lists.",
 [TC+'suites/mod.rs',TC+'suites/tls12.rs',TC+'suites/tls13.rs',TC+'versions.rs',TC+'msgs/handshake.rs'],
 [("choice by preference","suites/mod.rs choose_ciphersuite_preferring_*"),("filters","suites/mod.rs reduce_given_*"),("scheme resolution","suites/tls12.rs resolve_sig_schemes")],
 ["choose_ciphersuite_preferring_client/server, reduce_given_sigalg, reduce_given_version, compatible_sigscheme_for_suites, resolve_sig_schemes, EnabledVersions"],
 PBT+"generated offers and preferences against a reference negotiation; suite table enumerated",
 "About 1.5*10^6 negotiations per run; suite parameters checked exhaustively against the RFC table.")
prop("C11","Recorded handshake evidence survives being stored and reloaded",
 "Certificates, signed timestamps, OCSP responses, server key exchange details, signatures, randoms, public keys and all protocol code points recorded from a handshake come back unchanged after being serialised and read back, in text and in binary formats, and two different pieces of evidence never serialise to the same bytes.",
 ["inputs"],"for every value of the recorded evidence, including empty, absent, unknown and maximal ones",
 "No existing test stores and reloads these values with varied content.",
 [TC+'handshake.rs',TC+'verify.rs',TC+'key.rs',TC+'ke.rs',TC+'msgs/enums.rs',TC+'msgs/handshake.rs',TC+'dns.rs'],
 [("serde derives and adaptors","handshake.rs, key.rs, msgs/*.rs")],["serde_json and bincode of HandshakeData and its parts"],
 PBT+"round-trip through two formats of generated evidence, compared field by field",
 "JSON and bincode only; about 6*10^4 records per run.")
prop("C12","Server names are accepted exactly when they are valid DNS names",
 "A string is accepted as a server name exactly when it is a syntactically valid DNS name (label and total length, allowed characters, placement of hyphens and dots); an accepted name is reproduced unchanged for the SNI extension and on the wire, names are compared without regard to case, and an IP address is never sent in the SNI extension.",
 ["inputs"],"for every string, in particular those at the length limits and those with one disallowed character",
 "Existing tests check a few names.",
 [TC+'dns.rs',TC+'msgs/handshake.rs'],[("name validation","dns.rs validate / ServerName::try_from")],["ServerName::try_from, for_sni, encode, Eq/Hash"],
 PBT+"generated names against a restated grammar",
 "About 1.2*10^6 strings per run.")
prop("C13","Questions asked of a decoded hello are answered by its contents",
 "Every question the library answers about a decoded client hello, server hello, retry request, encrypted extensions, certificate, certificate request or session ticket (extension present, repeated, unknown or in the wrong place, server name, protocols, versions, key shares, schemes, timestamps and so on) has the answer its wire contents give, whatever other extensions are there and in whatever order.",
 ["inputs"],"for every hello or certificate message and every order, repetition or absence of extensions",
 "Existing tests query a couple of hand-made hellos.",
 [TC+'msgs/handshake.rs'],[("extension lookups","msgs/handshake.rs impls of ClientHelloPayload, ServerHelloPayload, HasServerExtensions, CertificatePayloadTLS13, ...")],
 ["get_* / has_* / find_* methods on decoded messages"],
 PBT+"generated messages, answers recomputed from the model by a reference",
 "About 8*10^5 messages per run.")
prop("C14","Every protocol code point keeps its number and its name",
 "For every enumeration of protocol code points, converting any number to its value and back gives the same number, known numbers are given the name the registry assigns, unknown numbers are preserved, the wire form is the big-endian number of the right width, and two values are equal exactly when their numbers are.",
 ["inputs"],"for every number of every enumeration",
 "The existing enum tests look only at the first and last value of each enumeration.",
 [TC+'msgs/enums.rs',TC+'msgs/macros.rs'],[("enum macro","msgs/macros.rs enum_builder")],["From<u8/u16>, get_u8/get_u16, Codec, Debug"],
 PBT+"exhaustive enumeration of all code points against a registry table",
 "Exhaustive over all code points of all enumerations.")
prop("C15","Derived encodings and built messages have the prescribed bytes",
 "Values the library computes for others have exactly the prescribed bytes for every input: the DER wrapping of names and keys for any length, the record additional data for any sequence number, type, version and length, the server key exchange structure and the parameters signed with it, alert, key-update, hello-request and change-cipher-spec messages, the joined client and server randoms, and the mark a server random carries when TLS 1.2 was forced on it.",
 ["inputs"],"for every length, sequence number, code point and byte content",
 "Existing tests check a few lengths of the DER wrapping and none of the other values.",
 [TC+'x509.rs',TC+'cipher.rs',TC+'suites/tls12.rs',TC+'msgs/message.rs',TC+'handshake.rs',TC+'ke.rs'],
 [("DER wrapping","x509.rs"),("additional data","cipher.rs make_tls12_aad"),("built messages","msgs/message.rs build_*")],
 ["wrap_in_asn1_len, wrap_in_sequence, make_tls12_aad, Message::build_*, join_randoms, ServerKeyExchange"],
 PBT+"generated inputs against restated encodings",
 "About 10^6 inputs per run.")
prop("C16","A recorded handshake is believed only with a valid chain and signature",
 "Verifying a recorded handshake for a server name succeeds exactly when its certificate chain was acceptable for that name at the recorded connection time and the key exchange signature, made by the chain's end-entity key, covers exactly the recorded client random, server random and key exchange parameters. Changing any one of these parts, or the name, makes verification fail, and the verifier consulted is given precisely the recorded evidence.",
 ["inputs"],"for every recorded handshake and every change to one of its parts",
 "Existing tests verify two recorded handshakes and a few edits of them.",
 [TC+'handshake.rs',TC+'verify.rs',TC+'cert.rs'],[("evidence verification","handshake.rs HandshakeData::verify")],["HandshakeData::verify"],
 PBT+"generated PKIs and signed handshakes with one part altered; plus a recording verifier",
 "About 8*10^4 handshakes per run; chain acceptability judged by the reference of C07.")
prop("C17","Certificate transparency policy is enforced as configured",
 "While a certificate transparency policy with known logs has not passed its deadline, a server whose chain is good is accepted exactly when it presents no timestamps, or the first timestamp that is not merely undecidable (unknown log, unknown version) is one correctly signed by its log over that very end-entity certificate and not from the future. An altered, malformed, foreign or future timestamp met first, or a list of only undecidable ones, makes the server be refused with an error naming the timestamp; without logs or after the deadline timestamps are ignored.",
 ["inputs","configurations"],"for every list of timestamps (genuine, altered, foreign, future, unknown, malformed), set of logs, deadline and time",
 "Existing tests do not exercise the policy.",
 [TC+'verify.rs'],[("SCT policy","verify.rs CertificateTransparencyPolicy::verify")],["WebPkiVerifier with CertificateTransparencyPolicy"],
 PBT+"generated timestamp lists signed with OpenSSL against a reference policy",
 "About 1.5*10^5 lists per run.")
prop("C18","A whole recorded TLS session is read back exactly as it took place",
 "For every TLS 1.2 or 1.3 session between two standard endpoints, the recorded byte streams are cut into the very records sent, every handshake message decodes and re-encodes to its bytes and reports what was negotiated, the recorded server's certificate and key exchange verify, and the secrets, keys, nonces and additional data computed with the library open every protected record and reproduce both finished messages, so that exactly the application data and closures that took place are recovered.",
 ["inputs","histories","configurations"],"for every negotiated suite, group, certificate key and chain, name, application protocol, stapled response, client authentication, retry, ticket, record size and application history, and every cutting of the streams into reads",
 "Existing tests decode a few recorded messages in isolation; none follows a session through key derivation and record protection.",
 [TC+'msgs/deframer.rs',TC+'msgs/hsjoiner.rs',TC+'msgs/handshake.rs',TC+'msgs/message.rs',TC+'prf.rs',TC+'cipher.rs',TC+'suites/tls12.rs',TC+'handshake.rs',TC+'verify.rs'],
 [("record and message layers","msgs/"),("key schedule and record protection inputs","prf.rs, cipher.rs, suites/tls12.rs"),("evidence verification","handshake.rs, verify.rs")],
 ["MessageDeframer, HandshakeJoiner, Message, prf, make_tls12_aad, join_randoms, HandshakeData::verify, verify_tls13_signature"],
 PBT+"differential against an independent TLS implementation over generated whole sessions",
 "About 2*10^4 sessions per run with rustls 0.22 over ring as the peer; no session resumption, no renegotiation.")

prop("C19","Random material for a session is fresh and fills its place",
 "Every random value made for a session (client random, session identifier, random vector, number or slice of any length) has exactly the size asked for, is written to exactly the place given, has no bit that is constant, no byte that repeats its neighbour and no byte value that never occurs, and never shares a block of sixteen bytes with any other random value, be it from the same source, another one, another thread or another process.",
 ["inputs","schedules","histories"],"for every length, place, source of random values, number of threads and processes",
 "No existing test looks at random values; a sampled value cannot show that they are fresh.",
 [TC+'rand.rs',TC+'msgs/handshake.rs'],[("random source","rand.rs"),("client random and session id","msgs/handshake.rs Random::new, SessionID::random")],
 ["fill_random, random_vec, random_u32, Random::new, SessionID::random"],
 PBT+"generated draws; invariants over all draws of the run that a fair source fails with probability below 2^-60",
 "About 3000 sets of 128 draws per run; shows freshness and coverage, not the cryptographic strength of the generator.")
