MT='crates/mpc-tls/src/'
TN='crates/tlsn/src/'
SS=" Prover, verifier, mpc-tls and the MPC components are compiled from /repo's sources over stand-ins: an ideal two-party computation, a multiplexer and an executor under the check's control (DESIGN.md section 6)."
prop("C70","Honest MPC sessions notarize exactly what was exchanged",
 "For every exchange between an application and an honest server within the configured limits, in MPC mode, at every schedule, fragmentation and way of closing, the session ends with both sides agreeing: the application and the server get each other's bytes unchanged, prover and verifier hold the same transcript of the records on the wire, and for every request to prove, the verifier sees exactly the server name and ranges the prover chose to reveal, with their true content, and exactly the commitments asked for, which open to the true bytes; a request the verifier declines fails at the prover with its reason. Nothing hangs.",
 ["inputs","schedules","configurations","histories"],"for every exchange, choice of limits and deferral, change of decryption on the way, closing, certificate, fragmentation, schedule and sequence of proofs",
 "The end-to-end tests run one exchange under one configuration; limits, orders and fragment boundaries decide whether a session completes.",
 [TN+'prover.rs',TN+'verifier.rs',TN+'prover/client/mpc.rs',TN+'transcript_internal/auth.rs',TN+'transcript_internal/commit/hash.rs',MT+'leader.rs',MT+'follower.rs',MT+'record_layer.rs'],
 [("connection","tlsn prover.rs connect, run; prover/client/mpc.rs"),("protocol","mpc-tls leader.rs, follower.rs, record_layer"),("proofs","tlsn prover/prove.rs, verifier/verify.rs, transcript_internal")],
 ["TlsConnection, Prover::prove, Verifier::verify, TlsTranscript, ProverOutput, VerifierOutput"],
 PBT+"sessions against a scripted rustls server under a seeded scheduler; oracle: the scripts and the wire",
 "At least 10^3 sessions per run, of up to 6 writes and answers each."+SS)
prop("C71","Honest proxy sessions notarize exactly what was exchanged",
 "For every exchange between an application and an honest server in proxy mode, at every schedule, fragmentation and way of closing, the session ends with both sides agreeing: the application and the server get each other's bytes unchanged, prover and verifier hold the same transcript of the records on the wire, and for every request to prove, the verifier sees exactly the server name and ranges the prover chose to reveal, with their true content, and exactly the commitments asked for, which open to the true bytes; a request the verifier declines fails at the prover with its reason. Nothing hangs.",
 ["inputs","schedules","configurations","histories"],"for every exchange, closing, certificate, fragmentation, schedule and sequence of proofs",
 "The end-to-end test runs one exchange.",
 [TN+'prover.rs',TN+'verifier.rs',TN+'prover/client/proxy/mod.rs',TN+'transcript_internal/auth.rs'],
 [("connection","tlsn prover/client/proxy"),("verifier","tlsn verifier.rs Verifier<CommitAccepted<Proxy>>::run, proxy.rs"),("proofs","tlsn prover/prove.rs, verifier/verify.rs, transcript_internal")],
 ["TlsConnection, Prover::prove, Verifier::verify, TlsTranscript, ProverOutput, VerifierOutput"],
 PBT+"sessions against a scripted rustls server under a seeded scheduler; oracle: the scripts and the wire",
 "At least 4*10^3 sessions per run."+SS)
prop("C76","A connection that ends early ends cleanly and never proves an untruth",
 "For every point at which the server's stream ends or the application goes away (dropping or closing its side, with or without unread data), neither prover nor verifier hangs, spins or panics: before the handshake is complete both fail; afterwards the session completes with what was received up to then and can be proven, or fails on both sides. The application is told of the end and never reads what the server did not send. Whatever the verifier accepts is a true statement about what was exchanged.",
 ["crash points","schedules","inputs"],"for every byte of the server's stream and step of the application at which it ends, in both modes",
 "Tests close connections in one place each; there is one such place per byte and schedule.",
 [TN+'prover.rs',TN+'verifier.rs',TN+'prover/client/mpc.rs',TN+'prover/client/proxy/mod.rs',MT+'leader.rs'],
 [("pump","tlsn prover.rs io_from_tls_client and the polling of the connection"),("closing","prover/client/mpc.rs, prover/client/proxy/mod.rs server_close, client_close")],
 ["results of prover, verifier and application; End of the schedule"],
 PBT+"cuts and drops at generated points of generated sessions",
 "At least 5*10^3 sessions per run. Whether the verifier in proxy mode fails when the server is gone before all of the client's bytes were forwarded is not judged."+SS)
prop("C83","Losing the peer ends a session and proves nothing untrue",
 "For every message between prover and verifier at which their connection is lost, both sides end without hanging, spinning or panicking; the two never both complete as if nothing had happened, and whatever the verifier accepted before is a true statement about what was exchanged.",
 ["crash points","schedules"],"for every message of the session as the last one, in both modes",
 "A session has hundreds of messages; tests lose none.",
 [TN+'session.rs',TN+'prover.rs',TN+'verifier.rs',MT+'leader.rs',MT+'follower.rs'],
 [("session","tlsn session.rs Session, SessionDriver"),("protocol","prover.rs, verifier.rs, mpc-tls")],
 ["results of prover, verifier, drivers; End of the schedule"],
 PBT+"connection loss at generated messages of generated sessions",
 "At least 2.8*10^3 sessions per run."+SS)
prop("C72","A lying prover is refused or tells the truth",
 "For every session whose prover sends the verifier other messages than it should (changed, cut, missing, repeated, reordered, of an earlier time, with other numbers or lengths, consistently different bytes of plaintext and ciphertext, or a request to accept other lengths, bytes, ranges, names, handshakes or commitments, to which it fitted its own part of the proof), the verifier neither panics nor spins, and whatever it accepts is true: the transcript it signs is a prefix of the records on the wire and the accepted one is as long, the server name is that of the certificate of this connection, revealed ranges and commitments are those it was asked for, revealed bytes are those that were exchanged, and every commitment it accepts opens to such bytes.",
 ["inputs","histories","adversary"],"for every session and sequence of changed messages of the prover, in both modes",
 "The verifier exists for provers that lie; tests run honest ones.",
 [TN+'verifier.rs',TN+'verifier/verify.rs',TN+'transcript_internal/auth.rs',TN+'transcript_internal/commit/hash.rs',TN+'tag.rs',MT+'follower.rs',MT+'record_layer.rs'],
 [("protocol","mpc-tls follower.rs, record_layer.rs, record_layer/decrypt.rs"),("statement","tlsn verifier/verify.rs verify, transcript_internal/auth.rs verify_plaintext, transcript_internal/commit/hash.rs"),("tags","tlsn tag.rs verify_tags")],
 ["Verifier results, VerifierOutput, TlsTranscript, panics"],
 PBT+"changes of generated messages of generated sessions (message fuzzing); oracle: the wire and the certificate",
 "At least 1.2*10^4 sessions per run. For made-up requests the ideal computation takes whatever fits the verifier's own part, so that only the verifier's checks refuse. Messages of the ideal two-party computation itself carry private inputs and requests to decode; a lying prover may change its inputs or send garbage there."+SS)
prop("C73","A lying verifier cannot make the prover hold an untruth",
 "For every session whose verifier sends the prover other messages than it should (changed, cut, missing, repeated, reordered, of an earlier time, with other numbers or lengths), the prover does not panic, the application reads only what the server sent, the server gets only what the application wrote, and a transcript the prover holds is a prefix of the records on the wire with their true content.",
 ["inputs","histories","adversary"],"for every session and sequence of changed messages of the verifier, in both modes",
 "Tests run honest verifiers.",
 [TN+'prover.rs',TN+'prover/prove.rs',TN+'prover/client/mpc.rs',MT+'leader.rs',MT+'record_layer.rs'],
 [("protocol","mpc-tls leader.rs, record_layer.rs"),("prover","tlsn prover.rs, prover/client/mpc.rs, prover/prove.rs")],
 ["Prover results, Transcript, bytes at application and server, panics"],
 PBT+"changes of generated messages of generated sessions (message fuzzing); oracle: the scripts and the wire",
 "At least 7*10^3 sessions per run. Whether the prover waits for a silent verifier without using the processor is not judged."+SS)
prop("C77","The verifier learns nothing the prover did not show",
 "In every session, honest or with a verifier that sends other messages than it should, nothing that the prover sends and nothing that the joint computation decodes contains 12 or more consecutive bytes of what was sent or received and not revealed, of the key stream that hides it, of the master secret, of the write key of a direction that was not revealed as a whole, or of the blinder of a commitment; no two secrets are decoded under one pad, and no two commitments share a blinder.",
 ["inputs","configurations","adversary"],"for every session, choice of revealed ranges and commitments, and sequence of changed messages of the verifier, in both modes",
 "Tests look at what is revealed, not at what is not.",
 [TN+'prover.rs',TN+'prover/prove.rs',TN+'transcript_internal/auth.rs',TN+'transcript_internal/commit/hash.rs',MT+'leader.rs',MT+'record_layer.rs',MT+'record_layer/decrypt.rs',MT+'record_layer/aes_gcm.rs','crates/components/hmac-sha256/src/prf.rs'],
 [("pads","mpc-tls record_layer/decrypt.rs private_mpc, record_layer/aes_gcm.rs"),("selective disclosure","tlsn transcript_internal/auth.rs prove_plaintext, core transcript.rs PartialTranscript"),("commitments","tlsn transcript_internal/commit/hash.rs prove_hash")],
 ["all messages of the prover, values decoded by the ideal machine"],
 PBT+"generated sessions and changes of the verifier's messages; oracle: the secrets themselves, from the server's key log and the wire",
 "At least 7*10^3 sessions per run. The private inputs of the ideal computation, and its shares, are not looked at: the real one hides them."+SS)
HK=" Driven through a hook in mpc-tls (cfg tlsn_verif); if the hook does not build with the tree under test, whole sessions are run instead."
prop("C74","The joint TLS engine speaks TLS 1.2, for any order of records and flushes",
 "For every sequence of records pushed in either direction, flushes and changes of decryption, the two parties together compute what TLS 1.2 says: session keys, Finished values, every outgoing record and its tag, every received plaintext, and a transcript of exactly these records in order, equal on both sides, with the follower seeing the plaintext of non-application records only. A record that is not authentic, a wrong Finished message, and anything beyond the configured limits on bytes and records are refused, anything within them is not.",
 ["inputs","histories","configurations"],"for every choice of limits, keys, record types, lengths and contents, order of pushes, flushes and mode changes, and altered record",
 "Unit tests flush a few fixed records in one order.",
 [MT+'leader.rs',MT+'follower.rs',MT+'record_layer.rs',MT+'record_layer/encrypt.rs',MT+'record_layer/decrypt.rs',MT+'record_layer/aead/aes_gcm.rs',MT+'config.rs','crates/components/hmac-sha256/src/prf.rs','crates/components/cipher/src/lib.rs','crates/components/key-exchange/src/exchange.rs'],
 [("engine","mpc-tls leader.rs, follower.rs, record_layer.rs"),("records","mpc-tls record_layer/encrypt.rs, decrypt.rs, aead"),("keys","components hmac-sha256, key-exchange, cipher")],
 ["MpcTlsLeader, MpcTlsFollower results, TlsTranscript, SessionKeys"],
 PBT+"generated sequences of operations (model-based); oracle: TLS 1.2 restated with OpenSSL",
 "At least 4*10^3 connections per run."+HK+SS)
prop("C75","The verifier's half of the engine accepts only TLS it was told of",
 "For every sequence of protocol messages of the prover's half, in any order and with any contents, the verifier's half neither panics nor spins, and when it completes, it got exactly one client random, server hello (within the allowed difference of time) and hash for each Finished message, its transcript holds exactly the records it was told of, numbered in order and within the configured limits, every public plaintext is what the ciphertext decrypts to under the session's keys, both Finished messages are right for the hashes it got, and both directions ended with data or close_notify.",
 ["inputs","histories","adversary"],"for every order of steps and change of messages of the prover's half",
 "The prover is not trusted; tests run an honest one.",
 [MT+'follower.rs',MT+'msg.rs',MT+'record_layer.rs',MT+'utils.rs','crates/core/src/transcript/tls/builder.rs','crates/components/hmac-sha256/src/prf.rs'],
 [("loop","mpc-tls follower.rs MpcTlsFollower::run"),("records","mpc-tls record_layer.rs push_encrypt, push_decrypt, flush, commit"),("check","mpc-tls utils.rs verify_transcript")],
 ["MpcTlsFollower::run results, TlsTranscript, panics"],
 PBT+"structured changes of protocol messages and of the order of steps; oracle: the messages it got and TLS 1.2 restated",
 "At least 3*10^3 connections per run. Tags of received records are for the verifier to check afterwards (C72)."+HK+SS)
CO='crates/components/'
CS=" Compiled from /repo's sources over the ideal two-party computation (DESIGN.md section 6): the circuits are computed, their cryptographic execution is not."
prop("C79","The joint PRF yields the TLS 1.2 keys in every mode and order",
 "For every master or pre-master secret, whoever knows it, and every random, session hash and handshake hash, both parties get from the joint PRF exactly the TLS 1.2 write keys, IVs and Finished values, in each network mode (normal, reduced) and key mode (standard, extended, given master secret), in whatever order the inputs arrive and however often the PRF is flushed and the computation runs in between; it stops asking to be flushed. Calls out of turn (an input before allocation, the server random before the client random, a secret or session hash of another mode, a second allocation) are refused.",
 ["inputs","histories","configurations"],"for every secret, seed, mode, knowledge of inputs, and order of inputs, flushes and executions",
 "Unit tests use fixed vectors in one order of calls.",
 [CO+'hmac-sha256/src/prf.rs',CO+'hmac-sha256/src/prf/function/normal.rs',CO+'hmac-sha256/src/prf/function/reduced.rs',CO+'hmac-sha256/src/hmac.rs',CO+'hmac-sha256/src/prf/function.rs'],
 [("PRF","hmac-sha256 prf.rs Prf, prf/function"),("HMAC","hmac-sha256 hmac.rs")],
 ["decoded PrfOutput, results of Prf's methods"],
 PBT+"generated sequences of calls by both parties under a seeded scheduler; oracle: P_SHA256 restated with OpenSSL",
 "At least 6*10^3 runs per run."+CS)
prop("C80","The joint cipher is AES-128 in ECB and counter mode",
 "For every key, IV, block, nonce, counter and input, whoever knows them, both parties get from the joint cipher exactly AES-128 of the block or counter block, and any part taken of an allocated key stream, applied to input or read out, is that of the nonce and counter it was given; what was taken is no longer there. Requests without key or IV, for more key stream than there is, or for input of the wrong length are refused.",
 ["inputs","histories"],"for every key, IV, knowledge of inputs, and sequence of blocks and parts of the key stream",
 "Unit tests compute a few fixed blocks.",
 [CO+'cipher/src/aes/mod.rs',CO+'cipher/src/lib.rs'],
 [("AES","components cipher aes Aes128"),("key stream","components cipher lib.rs Keystream, CtrBlock")],
 ["decoded blocks, key stream and output, results of the methods"],
 PBT+"generated sequences of calls by both parties under a seeded scheduler; oracle: OpenSSL's AES",
 "At least 3*10^4 runs per run."+CS)
prop("C81","The joint key exchange yields the ECDH secret of the two shares' sum",
 "For every pair of key shares and server key, the key exchange gives the leader the public key of the shares' sum and both parties the x coordinate of its ECDH with the server's key as pre-master secret, whatever the schedule; calls out of turn are refused. If one party's share of the result is not what it should be, the exchange does not end well for both with a wrong secret.",
 ["inputs","schedules","adversary"],"for every share, server key, schedule and order of calls, and every change of one party's shares",
 "Unit tests run one exchange of fixed keys.",
 [CO+'key-exchange/src/exchange.rs',CO+'key-exchange/src/circuit.rs',CO+'key-exchange/src/point_addition.rs'],
 [("exchange","components key-exchange exchange.rs MpcKeyExchange"),("addition","components key-exchange point_addition.rs, circuit.rs")],
 ["client_key, decoded pre-master secret, results of the methods"],
 PBT+"generated exchanges under a seeded scheduler, with generated changes of shares; oracle: OpenSSL's ECDH",
 "At least 7*10^3 exchanges per run."+CS)
prop("C82","Dual execution gives right outputs or refuses the one who cheats",
 "For every program of allocations, inputs, calls, decodings, executions and the closing proof, the dual-execution machine gives both parties the values the program says, in both of its machines, whoever knows which input. A party that uses other private inputs in the one machine than in the other is refused by the honest party, unless no value the honest party sees is changed by it.",
 ["inputs","histories","adversary"],"for every program, choice of values, schedule and change of one party's private inputs in one machine",
 "Unit tests run AES once and one fixed cheat.",
 [CO+'deap/src/lib.rs',CO+'deap/src/map.rs'],
 [("machine","components deap lib.rs Deap: execute_all, finalize"),("references","components deap map.rs")],
 ["decoded values in the machine and in its proof, results of finalize"],
 PBT+"generated programs run by both parties, with generated changes of private inputs; oracle: the program computed in the clear",
 "At least 5*10^4 programs per run."+CS)
