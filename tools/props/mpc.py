MC='crates/mpc-tls/src/client/'
CL=" The client of mpc-tls is compiled from /repo's sources over a stand-in for the MPC leader that does the same cryptography in one process (DESIGN.md section 6)."
prop("C60","The MPC-TLS client completes honest handshakes and carries data unchanged",
 "For every honest TLS 1.2 server and configuration of the client, the handshake completes, and from then on every byte written on either side arrives unchanged, once and in order; nothing written before the handshake is done is sent early. The hello offers exactly what is configured (TLS 1.2 only, the two AES-128-GCM suites, secp256r1, verifiable signature schemes, name and protocols), records respect the fragment limit, close_notify ends reading, and requests to renegotiate are declined. A client certificate is sent exactly when it is asked for and configured, with a valid signature over the handshake.",
 ["inputs","configurations","histories"],"for every client configuration, honest server, fragmentation of records and reads, and history of writes, closures and warnings",
 "The client has no unit tests; integration tests run one server with one certificate and need the whole MPC stack.",
 [MC+'conn.rs',MC+'hs.rs',MC+'tls12.rs',MC+'config.rs'],[("connection","client/conn.rs ClientConnection"),("handshake","client/hs.rs, client/tls12.rs states"),("configuration","client/config.rs ClientConfig, ServerName")],
 ["ClientConnection: start, read_tls, process_new_packets, write_plaintext, write_tls, read_plaintext"],
 PBT+"stateful sessions against a scripted TLS 1.2 server over OpenSSL",
 "At least 2*10^4 sessions per run."+CL)
prop("C61","The MPC-TLS client talks only to the authentic server",
 "For every server, the keys are exchanged only if its certificate chain is valid for the configured name under the configured roots and its key exchange is signed by the certificate's key over both randoms and the parameters sent, under a scheme that was offered and fits the suite. Otherwise the handshake fails before anything depends on the server's key. What is handed to the leader (randoms, key share, chain, signature) is exactly what was verified.",
 ["inputs"],"for every chain defect, name, signature over other data, by another key or under another scheme",
 "Needs PKIs and forged signatures for every way a server can fail to be authentic.",
 [MC+'tls12.rs',MC+'hs.rs'],[("verification","client/tls12.rs ExpectServerDone"),("evidence","client/tls12.rs prepare_encryption call")],
 ["errors of process_new_packets, calls to the leader, records sent"],
 PBT+"generated PKIs and forged key exchanges; reference path validator",
 "At least 10^4 handshakes per run."+CL)
prop("C62","The MPC-TLS client accepts handshake messages only in the order of TLS 1.2",
 "For every sequence of server messages, the handshake completes only if the sequence is one TLS 1.2 allows for what was negotiated (with optional certificate status, certificate request and ticket in their places); the first message out of place ends the connection with unexpected_message, keys are not exchanged out of turn, and a handshake message may not span the change of keys or the end of the flight. Application data is delivered only after the server's Finished.",
 ["histories"],"for every sequence of messages, mutations of the honest sequence, at any fragmentation",
 "The number of orders is unbounded; no unit test exists.",
 [MC+'hs.rs',MC+'tls12.rs',MC+'conn.rs'],[("states","client/hs.rs, client/tls12.rs impl State"),("alignment","client/conn.rs check_aligned_handshake")],
 ["errors, alerts and calls to the leader after each message"],
 PBT+"message sequences against an automaton of the handshake",
 "At least 1.2*10^4 sequences per run."+CL)
prop("C63","The MPC-TLS client accepts only what it offered",
 "For every server choice of version, compression, cipher suite, extensions, application protocol, point formats, curve, key share and suite against certificate type, the handshake goes on only if it was offered and fits; otherwise it fails before the keys are exchanged, with the alert the standard has for it, and no data flows.",
 ["inputs"],"for every server choice and combination of choices, valid or not",
 "Downgrades are choices tests do not enumerate; no unit test exists.",
 [MC+'hs.rs',MC+'tls12.rs'],[("hello","client/hs.rs ExpectServerHello"),("key exchange","client/tls12.rs ExpectServerKx, ExpectServerDone")],
 ["errors and alerts of the handshake"],
 PBT+"generated server choices against the offer",
 "At least 10^4 handshakes per run."+CL)
prop("C64","A changed handshake never completes in the MPC-TLS client",
 "For every change of a handshake message on its way and every server Finished other than the right one for the client's view of the handshake (wrong value, length, label, secret or transcript, or the client's own echoed), the handshake does not complete, no application data is sent or delivered, and traffic is not started.",
 ["inputs"],"for every message changed in transit and every wrong Finished",
 "A statement about all bytes of the handshake.",
 [MC+'tls12.rs',MC+'conn.rs'],[("check","client/tls12.rs ExpectFinished"),("transcript","client/hs.rs, tls12.rs use of HandshakeHash")],
 ["is_handshaking, data delivered and sent, calls to the leader"],
 PBT+"mutated messages and wrong Finished values",
 "At least 1.4*10^4 handshakes per run."+CL)
prop("C65","Errors and fatal alerts end an MPC-TLS connection for good",
 "For every misbehaviour of the server in or after the handshake (messages out of place, change of cipher, unknown content, undecryptable, replayed or missing records, bad framing), every fatal alert or alert of unknown level, and every failure of the MPC backend, the connection reports an error; from then on every call reports that same error, delivers no data and sends none. Warnings do not disturb; alerts are reported with their description.",
 ["inputs","histories","faults"],"for every point of the session, kind of misbehaviour, alert, and call of the backend that fails",
 "Failure can strike at any of dozens of points.",
 [MC+'conn.rs'],[("errors","client/conn.rs process_new_packets"),("alerts","client/conn.rs process_alert, send_fatal_alert")],
 ["results of process_new_packets, data delivered and sent"],
 PBT+"fault injection at generated points of generated sessions",
 "At least 2*10^4 sessions per run."+CL)
prop("C66","Bytes changed on the wire never pass as the server's",
 "For every change of the byte stream from the server (bytes, records dropped, repeated, swapped, split, joined, injected, retyped, truncated), the handshake completes only if the handshake messages arrive unchanged, the data delivered is a prefix of what the server sent, and no bytes at all make the client panic or complete a handshake by themselves.",
 ["inputs"],"for every change of the stream in either epoch and arbitrary records at any point",
 "A statement about all byte streams.",
 [MC+'conn.rs',MC+'tls12.rs',MC+'hs.rs'],[("records","client/conn.rs process_incoming_opaque, process_incoming_plain")],
 ["is_handshaking, data delivered, panics"],
 PBT+"record-level tampering and arbitrary records",
 "At least 2.4*10^4 streams per run."+CL)
