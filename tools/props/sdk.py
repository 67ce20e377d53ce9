SD='crates/sdk-core/src/'
FM='crates/formats/src/'
SP=" HTTP and JSON are parsed by a stand-in for the spansy library (DESIGN.md section 6)."
prop("C50","The default committers commit to each separately disclosable part, exactly",
 "For every HTTP transcript of requests and responses, with headers (also repeated, empty, oddly spaced) and bodies (none, opaque, JSON of any nesting; with a content length, chunked, or up to the end of the connection), the default HTTP and JSON committers commit to exactly the byte ranges that make up the parts which can be disclosed on their own (the message, its start line without the target, the target, each header with and without its value, each JSON value, key and pair and the structures without their content), each in the right direction and with the chosen algorithm, and to nothing else.",
 ["inputs"],"for every exchange of HTTP messages and JSON documents",
 "Which ranges are committed decides what can be disclosed separately later; tests look at a few messages.",
 [FM+'http/commit.rs',FM+'json/commit.rs'],
 [("HTTP","formats http/commit.rs HttpCommit, DefaultHttpCommitter"),("JSON","formats json/commit.rs JsonCommit, DefaultJsonCommitter")],
 ["TranscriptCommitConfig::iter_hash"],
 PBT+"generated messages, oracle: the positions of the parts as they were written",
 "2*10^4 exchanges per run."+SP)
prop("C51","Disclosure handlers cover exactly the parts they name",
 "For every HTTP request and response and list of handlers, the ranges computed for disclosure are exactly those of the named parts: start line, protocol, method, target, status code, headers (all, or every header of a name, whole or without its name or value), the body (whole, or a value of a JSON document by its path, with or without key or value), and the whole message or every match of a regular expression in it; ranges to reveal and ranges to commit to with their algorithm are kept apart; nothing else is disclosed; a handler which names a part that is not there, or lacks or has unusable parameters, is refused. Handlers read from and written as JSON mean the same.",
 ["inputs"],"for every pair of messages and list of handlers",
 "An off-by-a-few range discloses secrets or spoils a proof; tests cover single examples of each part.",
 [SD+'handler/mod.rs',SD+'handler/extract.rs'],
 [("handlers","sdk-core handler/mod.rs compute_reveal"),("extraction","sdk-core handler/extract.rs")],
 ["ComputeRevealOutput: reveal, commit, annotated ranges"],
 PBT+"generated messages and handlers, oracle: the positions of the parts as they were written",
 "6*10^4 lists of handlers per run. Not judged: hiding the value of an element of a JSON array, keys with dots, repeated keys."+SP)
prop("C52","A session through the SDK reports the exchange and its disclosure truthfully",
 "For every HTTP request, server answer, mode and choice of ranges to reveal and commit to, a session run through SdkProver and SdkVerifier makes the server get exactly that request (method, target, each header, body; authenticated with the client's certificates when configured), returns the server's status, headers and body, and a transcript equal to the bytes exchanged; the verifier gets the server name only if it was revealed, the true lengths, version and time, and exactly the revealed ranges with their true content; and the prover gets one opening for each commitment asked for, in the order they were asked for, which opens it. The verifier refuses exactly the requests that exceed a limit it has set.",
 ["inputs","configurations"],"for every request, answer, mode, disclosure, certificate and choice of limits",
 "Order and number of openings, repeated headers and optional limits go wrong only for some inputs.",
 [SD+'prover.rs',SD+'verifier.rs',SD+'types.rs',SD+'config.rs',SD+'io.rs'],
 [("prover","sdk-core prover.rs send_request, reveal, build_reveal_output"),("verifier","sdk-core verifier.rs setup, run, verify"),("conversions","sdk-core types.rs, config.rs, io.rs HyperIo")],
 ["HttpResponse, Transcript, RevealOutput, VerifierOutput"],
 PBT+"whole sessions with a rustls server on a paused clock; oracle: the request, the answer and the bytes at the server",
 "2.5*10^3 sessions and 600 choices of limits per run. A limit on records where the prover leaves their number to the default is not judged."+SS)
prop("C53","The SDK's parties follow their order of calls and check their configuration",
 "For every sequence of calls of SdkProver and SdkVerifier, a call that is not due is refused with an invalid-state error, no call succeeds after one that failed, a party says it is complete after exactly the last step, and the right order works in both modes; nothing panics. Configurations are refused exactly if a root certificate is unusable (the error tells which), the server name is empty or, in MPC mode, no data may be sent or received; roots are kept as given.",
 ["histories","configurations"],"for every sequence of calls of both parties and every configuration",
 "Tests make each wrong call once, on a fresh party.",
 [SD+'prover.rs',SD+'verifier.rs',SD+'config.rs'],
 [("prover","sdk-core prover.rs SdkProver, State"),("verifier","sdk-core verifier.rs SdkVerifier, State"),("configuration","sdk-core config.rs build_root_store, SdkProver::new")],
 ["results and error kinds of the calls, is_complete"],
 PBT+"generated call sequences against a model of the states; generated configurations",
 "4*10^3 pairs of call sequences and 10^4 configurations per run."+SS)
