PBT='property-based testing: '
H='crates/harness/core/src/'
prop("C20","A benchmark plan runs exactly the benchmarks it describes",
 "For every plan, each setting of each benchmark that is run is the item's own value if given, else its group's, else the documented default; each item is run as many times as the override, the item, the group or the default sample count (in that order) says, in order of group and name with ties in file order. An item of an undefined group stops the plan, and the recorded measurement carries exactly the benchmark's settings and its metrics.",
 ["inputs","configurations"],"for every set of groups and items with any subset of settings present, and every sample count and override",
 "No existing test covers plan expansion; the combinations of present and absent settings are many.",
 [H+'bench.rs'],[("expansion and inheritance","bench.rs BenchItems::to_benches, BenchItem::apply_group, into_bench"),("measurement","bench.rs Measurement::new")],
 ["BenchItems::to_benches, Measurement::new, file form of all types"],
 PBT+"generated plans against a reference expansion",
 "About 3*10^5 plans per run; group names distinct.")
prop("C21","Harness addresses, commands and results are consistent",
 "For every subnet large enough, the harness assigns every endpoint a different usable address of the subnet and its fixed port, and a subnet too small is refused. Commands, their outputs, errors and executor configurations arrive as they were sent, an output of one kind is never taken for another (and the error names both), and mode names are read without regard to case and nothing else is accepted.",
 ["inputs","configurations"],"for every subnet, command, output, configuration and mode name",
 "No existing test covers these.",
 [H+'network.rs',H+'rpc.rs',H+'test.rs',H+'lib.rs'],[("address plan","network.rs NetworkConfig::new"),("messages","rpc.rs, test.rs"),("modes","lib.rs IoMode")],
 ["NetworkConfig::new, Cmd, CmdOutput, RpcError, ExecutorConfig, IoMode"],
 PBT+"generated subnets, messages and names: invariants and round-trips",
 "About 5*10^5 cases per run.")
prop("C22","The HTTPS test server answers every request as documented",
 "For every request sent over TLS, in any pieces, the server returns the requested number of bytes, the JSON page of the requested size (not found for a size it does not have), the HTML page or the greeting; protected pages are given exactly to requests with the right token; unknown pages are not found; the connection is then closed properly. A request for shutdown ends the server's side at once, whether or not its answer is read. A client with no certificate or one of the known authority is served, a client with a certificate of another authority is not.",
 ["inputs","histories"],"for every path, size, token, client certificate and cutting of the request into writes",
 "Existing tests ask for the greeting and one JSON page, without TLS.",
 ['crates/server-fixture/server/src/lib.rs','crates/server-fixture/certs/src/lib.rs'],[("routes","server/src/lib.rs app, bytes, json, html, protected_route, elster_route"),("TLS and client certificates","server/src/lib.rs bind")],
 ["bind over an in-memory pipe"],
 PBT+"generated requests over real TLS against a model of the server",
 "About 3*10^4 requests per run; virtual time, in-memory pipe.")
prop("C23","The TLS test server echoes and misbehaves exactly as commanded",
 "For every sequence of requests on one connection, the HTTP server returns the body as sent, in upper case or reversed, byte for byte and in order. For every sequence of records, the raw server greets each one that is not a command, and each command makes the client see exactly the intended end: a clean closure, a closure without notice, a corrupted record, a record that fails to decrypt, or the fatal alert; a requested delay is observed.",
 ["histories","inputs"],"for every sequence of requests and records, body, chunking and cutting into writes",
 "Existing tests do not exercise the servers directly.",
 ['crates/tls-server-fixture/src/lib.rs'],[("HTTP echo","lib.rs echo"),("commands","lib.rs bind_test_server")],
 ["bind_test_server_hyper, bind_test_server over an in-memory pipe"],
 PBT+"generated request and command histories over real TLS against a model",
 "About 4*10^4 connections per run; virtual time, in-memory pipe.")
prop("C24","The benchmark network is built, shaped and removed exactly, from any state",
 "For every subnet, and whatever an earlier run left behind (made or deleted up to any command), making the benchmark network yields the same network: three namespaces whose interfaces carry the configured addresses, are up and joined by one bridge; protocol traffic between the parties and to its proxy leaves by the protocol interfaces, traffic to the app and its proxy by the app interfaces, everything else by the control ones, and the browser's port is forwarded. Setting any bandwidth and delay shapes exactly the interfaces of that kind of traffic, the last setting counts, and zero means no limit. A command that fails is not overlooked and making the network again succeeds. Deleting leaves nothing of it. Nothing else on the machine changes.",
 ["inputs","histories","crash points","faults"],"for every subnet, state of the machine, interruption, failing command and sequence of settings",
 "It needs root and real interfaces; no test makes it.",
 ['crates/harness/runner/src/network.rs','crates/harness/core/src/network.rs'],[("network","runner/src/network.rs Network, VethPair, Bridge, ip_route, ip_forward"),("shaping","runner/src/network.rs Veth::set_egress")],
 ["commands run, applied to a model of the kernel's configuration"],
 PBT+"stateful, with interruptions and failing commands, against a model of the kernel's network configuration; oracle: the topology, by routing and addresses",
 "About 4*10^4 histories per run. The commands go to a stand-in and are never run; tc's and ip's refusals are restated (names, existing and missing things, empty token buckets, interfaces that are down).")
prop("C25","The traffic meter counts exactly the bytes that passed and changes none",
 "For every sequence of reads, writes, flushes and closes on a metered stream, whatever amounts, delays and errors the stream below answers with, each call is passed on once and its result returned unchanged, the bytes are unchanged, and the counters hold exactly the bytes sent and received.",
 ["inputs","histories","faults"],"for every sequence of operations and behaviour of the stream below",
 "No test exercises the meter.",
 ['crates/harness/executor/src/bench/io.rs'],[("meter","executor/src/bench/io.rs Meter")],
 ["poll results, bytes, counters"],
 PBT+"generated operations on a scripted stream",
 "About 4*10^4 sequences per run.")
