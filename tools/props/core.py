CR='crates/core/src/'
AT='crates/attestation/src/'
PBT='property-based testing: '
SH=" The crate is compiled from /repo's sources with stand-ins for the dependencies that are missing offline (DESIGN.md section 6)."
prop("C30","Disclosing part of a transcript shows exactly the chosen bytes",
 "For every transcript and every choice of sent and received ranges, the partial transcript made from them carries exactly the chosen bytes at their positions and nothing that depends on any other byte; ranges outside the transcript are refused. Adding further parts keeps what is there, overlapping parts that agree merge, and taking the union in any order gives the same result. A transcript is complete exactly when every byte of both directions is disclosed, and filling hidden bytes never touches disclosed ones.",
 ["inputs","histories"],"for every transcript, every set of ranges and every history of disclosures, unions, removals and fills",
 "Existing tests look at a handful of ranges of one short transcript; hiding is a statement about all other contents of the hidden bytes.",
 [CR+'transcript.rs'],[("selection","transcript.rs Transcript::get, to_partial"),("union and completion","transcript.rs PartialTranscript::union_transcript, union_subsequence, set_unauthed, is_complete, iter"),("pieces","transcript.rs Subsequence, Idx")],
 ["Transcript, PartialTranscript and Subsequence methods, their Debug and serialized form"],
 PBT+"model-based disclosure histories, non-interference by twin transcripts",
 "At least 5*10^5 histories per run; transcripts up to a few hundred bytes."+SH)
prop("C31","A partial transcript read from an untrusted peer is always consistent",
 "For every partial transcript a peer sends, reading it either fails or gives a transcript whose authenticated ranges lie within its length and hold exactly the bytes the message carries, in order, with every other byte marked as not authenticated; the message is refused if bytes and ranges do not add up, ranges exceed the total, or the total cannot be held. Honest partial transcripts are read back as they were. Nothing a peer sends makes reading panic.",
 ["inputs"],"for every claimed total, set of ranges and data in either direction, honest or not, in any serialized form, and every damaged encoding",
 "Existing tests read back a few honest transcripts.",
 [CR+'transcript.rs'],[("reading","transcript.rs impl TryFrom<CompressedPartialTranscript>, PartialTranscript"),("pieces","transcript.rs impl TryFrom<UncheckedSubsequence>, Idx")],
 ["serde deserialization of PartialTranscript, Subsequence"],
 PBT+"structured claims and damaged encodings against a model reader",
 "At least 4*10^5 claims per run."+SH)
prop("C32","A Merkle proof shows only leaves that are in the tree at those positions",
 "For every tree and every set of positions, the proof of these leaves is accepted for exactly them; with another leaf, position, root, hash function or a number of leaves that gives another tree shape it is refused. No proof is made for positions outside the tree, duplicated or out of order, and no proof, however damaged, makes verification panic.",
 ["inputs"],"for every number of leaves, hash function, set of positions and change of a proof or of what it is checked against",
 "Existing tests try a few changes of one tree.",
 [CR+'merkle.rs',CR+'hash.rs'],[("tree","merkle.rs MerkleTree"),("proof","merkle.rs MerkleProof::verify")],
 ["MerkleTree::insert, proof, root; MerkleProof::verify"],
 PBT+"generated trees and tampered proofs against construction",
 "At least 10^5 trees per run. The tree itself comes from a stand-in for rs_merkle."+SH)
prop("C33","A proof is built for every query the commitments cover, and shows only it",
 "For every set of commitments and every query, building a proof succeeds if the openings that lie inside the query, taken in order of preference of kinds, cover it, and fails if no openings inside it do. The proof built verifies, reveals every queried byte with its true value and no other byte, and opens no commitment that reaches outside the query. Queries out of bounds or without a fitting commitment are refused when made.",
 ["inputs","configurations"],"for every transcript, set of hash commitments in either direction with any algorithm, preference of kinds and query",
 "Existing tests cover some partial overlaps of two commitments.",
 [CR+'transcript/proof.rs',CR+'transcript/commit.rs',CR+'transcript/hash.rs'],[("query","transcript/proof.rs TranscriptProofBuilder::reveal, reveal_with_kind"),("cover","transcript/proof.rs TranscriptProofBuilder::build"),("check","transcript/proof.rs TranscriptProof::verify_with_provider")],
 ["TranscriptProofBuilder, TranscriptProof::verify_with_provider"],
 PBT+"generated commitments and queries against a cover model; proofs verified",
 "At least 3*10^5 queries per run."+SH)
prop("C34","A transcript proof yields only bytes that were committed to",
 "For every proof a prover sends, honest or made up, verification succeeds only if every byte it returns as authenticated is opened by a secret whose hash commitment is among those attested, for that direction and exactly those positions; then the bytes are the committed ones and the length is the attested length. A wrong length, byte, position, direction, blinder, algorithm, a missing or foreign opening, or data no opening covers, is refused. Nothing makes verification panic.",
 ["inputs"],"for every set of attested commitments and every combination of openings, ranges and bytes a dishonest prover can claim",
 "Existing tests try one foreign commitment, one changed byte and one length.",
 [CR+'transcript/proof.rs',CR+'transcript/hash.rs',CR+'transcript.rs'],[("check","transcript/proof.rs TranscriptProof::verify_with_provider"),("plaintext hash","transcript/hash.rs hash_plaintext, PlaintextHashSecret")],
 ["TranscriptProof deserialization and verify_with_provider"],
 PBT+"generated attacks on proofs; the oracle recomputes what was committed",
 "At least 4*10^5 proofs per run."+SH)
prop("C35","The commitments made are exactly those configured",
 "For every sequence of requested commitments, the configuration holds each pair of direction and ranges once per kind and algorithm, with the algorithm given or the default in force, whatever the order or overlap; ranges beyond the transcript are refused and change nothing. The request sent to the peer names the same ranges and algorithms and contains no data.",
 ["inputs","configurations"],"for every sequence of commit calls, default changes and kinds, in any order",
 "Existing tests check two ranges out of bounds.",
 [CR+'transcript/commit.rs'],[("builder","transcript/commit.rs TranscriptCommitConfigBuilder"),("request","transcript/commit.rs TranscriptCommitConfig::to_request")],
 ["TranscriptCommitConfig iteration, contains, to_request, serialized form"],
 PBT+"model-based call sequences",
 "At least 6*10^4 configurations per run."+SH)
prop("C36","Hashes are the named functions, and sensitive data is not printed",
 "For every input, the digest under each algorithm is the standard function's, taken over prefix and data in that order however it is split, and the provider knows exactly the algorithms registered, under their fixed identifiers. A hash value survives storage, compares by value, and one longer than the limit is refused. Debug output of transcripts and commitment secrets never depends on their content.",
 ["inputs"],"for every algorithm identifier, prefix, data and transcript",
 "Existing tests do not compare hashes with another implementation.",
 [CR+'hash.rs',CR+'transcript.rs',CR+'transcript/hash.rs'],[("hashes","hash.rs HashProvider, HashAlgorithm, impls"),("values","hash.rs Hash, TypedHash, HashAlgId"),("printing","transcript.rs Debug impls")],
 ["HashProvider::get, HashAlgorithm::hash, hash_prefixed, Hash serde, Debug output"],
 PBT+"differential against OpenSSL and published vectors; non-interference",
 "At least 1.5*10^5 cases per run."+SH)
prop("C37","The session transcript recorded from the wire is what the peers exchanged",
 "For every TLS 1.2 session, given its records, time and server name, the transcript holds exactly the handshake facts on the wire (certificates, signature and scheme, randoms, key, verify data, session hash as RFC 7627 defines it) and the application data of the session in each direction with its length. Handshake messages cut across or packed into records in any way give the same result. Sessions lacking a required message, with messages that do not decode, alerts of error, or records out of place are refused without panic.",
 ["inputs","histories"],"for every session of supported suites, record splitting, ticket and status messages, missing or foreign fields, and damaged record lists",
 "Existing tests read one recorded session.",
 [CR+'transcript/tls.rs',CR+'connection.rs'],[("reading the wire","transcript/tls.rs TlsTranscript::new, parse_handshake"),("application data","transcript/tls.rs to_transcript"),("session hash","transcript/tls.rs session hash")],
 ["TlsTranscript::new, its accessors and to_transcript"],
 PBT+"real rustls sessions and generated wire transcripts against a reader model",
 "At least 2.5*10^5 transcripts per run, 4*10^3 of real sessions."+SH)
prop("C38","A server's identity is accepted only with the handshake evidence for it",
 "For every recorded handshake (chain, key exchange signature, randoms, server key, time and name), verification of the server's identity succeeds exactly if the leaf chains to a configured root and is valid for the name at the recorded time, and its key signed both randoms and the recorded ephemeral key with exactly the algorithm named; the key must be the one of the session. A root store with a certificate that cannot be read is refused. Server names are legal DNS names. Certificates and keys read from DER or PEM are the given ones.",
 ["inputs"],"for every chain with any defect, root store, name, time, signature algorithm named or used, and altered random, key or signature",
 "Existing tests use one recorded chain and change one field each.",
 [CR+'connection.rs',CR+'webpki.rs'],[("evidence","connection.rs HandshakeData::verify"),("chain","webpki.rs ServerCertVerifier::new, verify_server_cert"),("names","connection.rs DnsName, ServerName"),("forms","webpki.rs CertificateDer, PrivateKeyDer")],
 ["HandshakeData::verify, ServerCertVerifier, DnsName::try_from, CertificateDer::from_pem_slice"],
 PBT+"generated PKIs and key exchanges signed by OpenSSL against a reference validator",
 "At least 10^5 handshakes and 2*10^5 names per run; no IP names, CRLs or TLS 1.3."+SH)
prop("C39","Configurations hold exactly what was asked, and peers are held to the same rules",
 "For every sequence of builder calls, a proving configuration reveals exactly the union of the ranges asked for, shows the identity only if asked, and the request for it says the same; ranges beyond the transcript are refused and change nothing. A TLS commitment configuration is valid exactly if its required limits are given and the data decrypted online fits the data received, whether built or read from a peer in any form, with the documented defaults. Client, verifier and proxy configurations require their fields, keep the last value given, and survive storage.",
 ["inputs","configurations"],"for every sequence of builder calls and every configuration a peer sends",
 "Existing tests build one configuration with one value each.",
 [CR+'config/prove.rs',CR+'config/tls_commit/mpc.rs',CR+'config/tls.rs',CR+'config/verifier.rs'],[("proving","config/prove.rs ProveConfigBuilder"),("limits","config/tls_commit/mpc.rs MpcTlsConfig"),("TLS","config/tls.rs TlsClientConfig"),("verifier","config/verifier.rs VerifierConfig")],
 ["the builders, accessors and serialized forms of the configurations"],
 PBT+"model-based call sequences; hostile serialized configurations",
 "At least 4*10^5 configurations per run."+SH)
prop("C40","An honest attestation ends in a presentation that shows what was agreed",
 "For every session, set of commitments, signature algorithm, hash and extensions, the prover's request is accepted, the attestation made for it is valid for the request, and any presentation made from it verifies: it shows the server name if the identity is included, exactly the chosen parts of the transcript, and the connection info, extensions and verifying key of the notary, each unchanged. Attestations, secrets and presentations mean the same after storage.",
 ["inputs","configurations"],"for every session, commitment set, algorithm, extension list and choice of what to present",
 "The existing API test runs one session with one choice of ranges.",
 [AT+'builder.rs',AT+'presentation.rs',AT+'proof.rs',AT+'request.rs',AT+'request/builder.rs',AT+'lib.rs'],[("request","request/builder.rs RequestBuilder::build"),("attestation","builder.rs AttestationBuilder"),("presentation","presentation.rs PresentationBuilder, Presentation::verify"),("body","lib.rs Body, Header")],
 ["Request, Attestation, Secrets, Presentation and PresentationOutput"],
 PBT+"generated deals from request to verified presentation; a recorded real presentation, damaged",
 "At least 1.6*10^4 deals and 6*10^3 damaged presentations per run."+SH)
prop("C41","No presentation shows facts the notary did not attest",
 "For every presentation a dishonest prover can make up from attestations of honest notaries (fields and proofs added, dropped, exchanged, moved or changed, parts of another attestation, another tree size or position), verification under a notary's key succeeds only if every fact in the output (server name, time, version, transcript length and bytes, each extension) is one that notary attested. Leaving facts out is allowed. Nothing makes verification panic.",
 ["inputs","histories"],"for every combination of changes to a presentation, using parts of up to two attestations",
 "Existing tests verify honest presentations only.",
 [AT+'presentation.rs',AT+'proof.rs',AT+'connection.rs',AT+'lib.rs',CR+'merkle.rs',CR+'transcript/proof.rs'],[("header","proof.rs AttestationProof::verify"),("body","proof.rs BodyProof::verify_with_provider"),("identity","connection.rs ServerIdentityProof, ServerCertOpening"),("transcript","presentation.rs Presentation::verify")],
 ["Presentation deserialization, Presentation::verify and its output"],
 PBT+"generated sequences of tampering steps; the oracle knows what was attested",
 "At least 2.4*10^4 presentations per run; signatures are not forged and hashes do not collide."+SH)
prop("C42","A notary signs only what it allows, and a prover accepts only its request",
 "For every notary configuration and request, the request is accepted exactly if its signature and hash algorithms are supported and its extensions pass the validator (by default: none); an attestation is made exactly if the notary has connection info, the server key and a signer of that algorithm. The prover accepts an attestation exactly if it is signed under the algorithm requested by the key it names, uses the requested hash and certificate commitment and carries all extensions requested. Errors name the side at fault.",
 ["inputs","configurations"],"for every configuration, request and altered attestation",
 "Existing tests try one unsupported algorithm each and a few changed attestations.",
 [AT+'builder.rs',AT+'request.rs',AT+'request/builder.rs',AT+'config.rs'],[("acceptance","builder.rs AttestationBuilder::accept_request"),("making","builder.rs AttestationBuilder<Sign>::build"),("validation","request.rs Request::validate"),("parts","request/builder.rs RequestBuilder::build")],
 ["AttestationConfig, Attestation::builder, Request::validate, Request::builder"],
 PBT+"generated configurations, requests and altered attestations against a decision model",
 "At least 4*10^4 requests and 2*10^4 attestations per run."+SH)
prop("C43","Notary signatures verify exactly for the key, message and scheme that made them",
 "For every private key and message, each signer accepts exactly keys in the group's range, names its public key, and signs with the standard scheme: ECDSA over SHA-256 for secp256k1 and P-256, and over Keccak-256 with recovery byte 27 or 28 that recovers exactly the signer's key for Ethereum. Another message, key, key kind, algorithm or signature is refused without panic. Custom algorithms work under identifiers from 128 and only for those who know them; reserved identifiers are not given out.",
 ["inputs"],"for every private key, message, algorithm and change of key, message or signature",
 "Existing tests sign one message per algorithm.",
 [AT+'signing.rs'],[("signers","signing.rs Secp256k1Signer, Secp256r1Signer, Secp256k1EthSigner"),("verifiers","signing.rs SignatureVerifierProvider"),("identifiers","signing.rs SignatureAlgId, KeyAlgId")],
 ["SignerProvider, SignatureVerifierProvider, Signer::sign, verify"],
 PBT+"differential against OpenSSL with key recovery; altered inputs",
 "At least 1.6*10^4 signatures per run; private keys of 24 to 31 bytes are not judged."+SH)
prop("C44","Notary and verifier learn only what they are meant to",
 "For every session, the request sent to the notary carries nothing of the server's identity or the text, says nothing but algorithms, extensions and one hiding commitment of fixed length, and never repeats that commitment. Neither the attestation nor a presentation without the identity carries the server's name, certificates, signature, randoms or the blinder; a presentation without the transcript opens no commitment, and one with it carries no hidden text. Debug output of secrets does not show blinders.",
 ["inputs"],"for every pair of sessions and every choice of what to present",
 "Hiding is a statement about all sessions; no existing test looks for what is not there.",
 [AT+'request.rs',AT+'request/builder.rs',AT+'presentation.rs',AT+'secrets.rs',AT+'connection.rs'],[("request","request/builder.rs RequestBuilder::build"),("commitment","connection.rs ServerCertOpening"),("presentation","presentation.rs PresentationBuilder"),("secrets","secrets.rs Secrets Debug")],
 ["serialized Request, Attestation and Presentation; Debug output"],
 PBT+"leak scan and comparison of twin sessions",
 "At least 8*10^3 pairs of sessions per run; hiding is judged on the bytes sent."+SH)
