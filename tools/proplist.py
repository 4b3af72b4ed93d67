T = "tests exercise only voucher/CBOR/COSE round trips; "

prop("C01", "TO0 registrations are stored only for a proven owner",
 "The rendezvous server stores an owner's redirect registration, or answers TO0.OwnerSign with success, only if the presented session is an existing TO0 session, the nonce inside to0d equals the nonce issued to that session, the ownership voucher in to0d validates, the to1d signature verifies under that voucher's final owner key, and the hash carried by to1d matches the to0d bytes. Every redirect address entry must also name a DNS name or an IP address, otherwise the request is refused and nothing is stored.",
 ["inputs", "histories"], "every OwnerSign request body, bearer token and sequence of earlier requests",
 T + "no test drives the rendezvous handlers, and no sample of requests covers all forged/replayed combinations.",
 ["core/rv/listener-to0.go", "core/rv/ownersign.db.go"],
 [("checks before saving", "core/rv/listener-to0.go Handle22OwnerSign"), ("only writer of registrations", "core/rv/ownersign.db.go OwnerSignDB.Save")],
 GUARD, "Sound for the listed checks along all paths of the handler incl. helpers; trusts the crypto primitives (C04, C05, C27) and badger.")

prop("C02", "TO0 registration content, key and lifetime are the verified ones",
 "What the rendezvous server stores on TO0.OwnerSign is exactly the verified request, filed under the device GUID from the verified voucher header. It is kept for the lesser of the wait time the owner asked for and the server maximum, and the same number is what the owner is told; a lookup returns the record filed under the looked-up GUID or an error.",
 ["inputs"], "every accepted OwnerSign request and every later lookup",
 T + "the registration store and the wait-time rule have no test.",
 ["core/rv/listener-to0.go", "core/rv/ownersign.db.go"],
 [("wait time agreement", "core/rv/listener-to0.go Handle22OwnerSign"), ("keyed storage with TTL", "core/rv/ownersign.db.go")],
 "value-provenance dataflow on SSA (stored key, value and TTL terms)", "Decides where the stored key, value and lifetime come from; the arithmetic of badger's TTL is trusted.")

prop("C03", "TO1 redirects are released only to the device they belong to",
 "The rendezvous server answers TO1.ProveToRV with a redirect only if the presented session is an existing TO1 session, the nonce in the signed token equals that session's nonce, and the token's signature verifies under the device certificate chain of the voucher registered for the session's GUID. The redirect sent back is the one registered for that GUID; TO1.HelloRV opens a session only for a GUID with a stored registration.",
 ["inputs", "histories"], "every ProveToRV / HelloRV request and bearer token",
 T + "no test drives the TO1 handlers.",
 ["core/rv/listener-to1.go"],
 [("token checks", "core/rv/listener-to1.go Handle32ProveToRV"), ("session binding", "core/rv/listener-to1.go Handle30HelloRV")],
 GUARD, "Sound for the listed checks along all paths; trusts certificate-chain and COSE verification (C27).")

prop("C04", "A voucher validates only if header, certificate chain and versions agree",
 "Voucher validation succeeds only if the voucher and its header carry protocol version 1.01, a device certificate chain is present and its hash equals the hash in the header, the rendezvous info and device info are not empty, and every ownership entry verifies. Any decoding failure on the way makes validation fail.",
 ["inputs"], "every voucher byte string", T + "the tests validate no malformed voucher.",
 ["core/shared/voucher.go"], [("validation", "core/shared/voucher.go OwnershipVoucher.Validate")],
 "success-return summary analysis: facts implied by a nil-error return, on SSA", "Sound for the listed conjuncts; does not decide the entries' header-info hash, which the code does not check.")

prop("C05", "Voucher entries form an unbroken signed hash chain",
 "Entry verification succeeds only if, for every ownership entry in order, the entry's previous-hash matches (the header plus its HMAC for the first entry, the complete preceding entry for the others) and its signature verifies under the preceding owner's key (the header key for the first entry, the key inside the preceding entry for the others). The owner key reported for a voucher is the one inside its last entry.",
 ["inputs"], "every entry list of any length", T + "tests contain no broken chain.",
 ["core/shared/voucher.go"], [("entry loop", "core/shared/voucher.go OVEntryArray.VerifyEntries"), ("final key", "core/shared/voucher.go GetFinalOwnerPublicKey")],
 "loop-universal must-facts on SSA with loop-carried value tracking", "Sound for the per-iteration obligations; hash/signature primitives trusted (C26, C27).")

prop("C06", "The owner service accepts TO2 messages only in protocol order",
 "The owner onboarding service answers TO2 messages 62, 64, 66, 68 and 70 with success only when the session's last answered message is an allowed predecessor: 61 or 63 for 62; 63 for 64; 65 for 66; 67 or 69 for 68; 69 for 70. Before each success answer to 60 through 68 the session is durably advanced to the number of that answer, and 62 serves only existing entry numbers.",
 ["inputs", "histories"], "every sequence of TO2 requests on a session", T + "no test drives a TO2 handler, let alone out-of-order histories.",
 ["core/do/to2"], [("previous-command guard", "core/do/to2/listener-to2-6*.go, listener-to2-70-Done.go"), ("session advance", "UpdateSessionEntry before the 200 answer")],
 GUARD, "Decides each handler's guard and session update on every path; concurrent requests on one session are not modelled.")

prop("C07", "The owner service authenticates the device before issuing keys",
 "The owner onboarding service derives and stores a TO2 session key, and answers TO2.ProveDevice with device setup data, only after the request's signature verified under the device certificate chain of the session's voucher and the signed nonce equals the nonce issued in that session. The setup data carries the session's GUID, the voucher's rendezvous info and final owner key, and echoes the device's setup nonce, which is also the nonce remembered for message 71.",
 ["inputs", "histories"], "every ProveDevice request", T + "no test drives ProveDevice.",
 ["core/do/to2/listener-to2-64-ProveDevice.go"], [("signature and nonce checks", "core/do/to2/listener-to2-64-ProveDevice.go ProveDevice64")],
 GUARD, "Sound for the listed checks and provenance on all paths; negative conformance tests, keyed by test id, are the only accepted alternatives.")

prop("C08", "TO2 completes only for a device that proves the session nonce",
 "The owner service accepts TO2.Done, records a completed conformance run or reports an interoperability event only after the decrypted message carried the nonce issued to the device in message 61; its answer echoes the setup nonce of message 64. A TO2.HelloDevice is answered only for a GUID whose voucher is stored, with the session remembering fresh nonce, key-exchange, cipher and signature choices from that request.",
 ["inputs", "histories"], "every Done and HelloDevice request", T + "no test drives these handlers.",
 ["core/do/to2/listener-to2-70-Done.go", "core/do/to2/listener-to2-60-HelloDevice.go"], [("nonce check", "Done70"), ("session creation", "HelloDevice60")],
 GUARD, "Sound for the listed checks on all paths.")

prop("C09", "TO2 messages 65 to 71 travel only under the session key",
 "Requests 66, 68 and 70 are interpreted only from the plaintext obtained by decrypting the body with the session's key and cipher suite; answers 65, 67, 69 and 71 are sent only as ciphertext under the session's key and cipher suite. Apart from deliberately corrupted bytes of a negative conformance test, no plaintext of these messages is written to the peer, on the device side as well.",
 ["inputs"], "every TO2 exchange after ProveDevice", T + "no test observes the wire.",
 ["core/do/to2", "core/device/to2"], [("decrypting receive", "core/do/to2/common.go receiveAndDecrypt"), ("AddEncryptionWrapping", "handlers 64-70 and requestors 66-70")],
 "value-provenance dataflow on SSA (response and request body terms)", "Decides the provenance of every written/decoded byte string; cipher correctness is C10/C28.")

prop("C10", "Decryption returns plaintext only after authentication succeeded",
 "Removing the encryption wrapping of a message yields plaintext only if the AEAD open succeeded or, for encrypt-then-MAC suites, the MAC computed with the session's verification key over the received MAC structure verified, and only if the algorithm named in the message is the one the session negotiated.",
 ["inputs"], "every received ciphertext and suite", T + "one encrypt test covers one suite and no tampering.",
 ["core/shared/enc.crypto.go"], [("ETM", "core/shared/enc.crypto.go decryptETM"), ("AEAD", "core/shared/enc.crypto.go decryptEMB")],
 "success-return summary analysis on SSA", "Sound for the guard structure; AES/HMAC implementations and the vendored CCM are trusted.")

prop("C11", "The device accepts TO2.ProveOVHdr only from the legitimate owner",
 "The device side takes the owner's TO2 message 61 as proven only if its signature verifies under the owner key it carries, and the echoed nonce, the signature info, the hash of its own hello message and the HMAC of the voucher header (computed with the device secret) all match. A response without an owner key or without a nonce is refused with an error, and the key and nonce later steps use are those of the accepted message.",
 ["inputs"], "every byte string an owner service may answer with", T + "no test drives the requestor.",
 ["core/device/to2/req-to2-60-HelloDevice.go"], [("61 checks", "core/device/to2 HelloDevice60")],
 "success-return summary analysis on SSA", "Sound for the listed checks on all nil-error returns.")

prop("C12", "The device accepts setup and completion only with proof of freshness",
 "The device side accepts TO2 message 65 only after decrypting it with the session key it derived, verifying its signature under the replacement owner key it names and matching the setup nonce the device sent in message 64; it reports TO2 complete on message 71 only if that message decrypts under the same session key and echoes that nonce again. Otherwise the step returns an error. The device's own token carries the nonce of message 61 and its GUID, and message 70 repeats the nonce of message 61.",
 ["inputs"], "every byte string an owner service may answer with", T + "no test drives the requestor.",
 ["core/device/to2/req-to2-64-ProveDevice.go", "core/device/to2/req-to2-70-Done.go"], [("65 checks", "ProveDevice64"), ("71 check", "Done70")],
 "success-return summary analysis on SSA", "Sound for the listed checks on all nil-error returns.")

prop("C13", "A device run proves itself only after the whole voucher chain verified",
 "Every component that plays the device through TO2 sends ProveDevice only after it fetched each ownership entry under the number it asked for, verified the complete entry chain against the header and HMAC received in message 61, and found the last entry's owner key equal to the key that signed message 61.",
 ["inputs", "histories"], "every TO2 run of the interop client and of the owner-service conformance executor", T + "no test runs TO2.",
 ["main.go", "testexec"], [("entry loop and chain check", "main.go to2 command; testexec preExecuteTo2_64 and later stages")],
 GUARD, "Decides all call sites of the device's message 64.")

prop("C14", "Malformed peer input yields an error, never a crash",
 "No data received from a peer - a protocol or API request's body or headers, or a server's answer - makes the handler, test executor, device step or command that receives it panic or end the process: absent optional fields, keys and curves of another type, signatures, key exchanges, IVs and nonces of the wrong length, off-curve points, empty lists, out-of-range entry numbers, malformed PEM and unknown session tokens lead to an error answer, a failed verdict or a returned error. Every nil dereference, index, slice, unchecked type assertion, division, allocation size, panicking library call, explicit panic and process exit that depends on such data is guarded on every path to it.",
 ["inputs"], "every byte string received from a peer", T + "tests contain no malformed peer input.",
 ["core", "testexec", "api", "main.go"], [("optional wire fields", "pointer fields of wire messages"), ("type assertions on keys", "core/shared/kex.crypto.go, signing*.go"), ("cipher preconditions", "core/shared/enc.crypto.go"), ("entry lists", "core/do/to2/listener-to2-62-GetOVNextEntry.go, testexec/do.to2.*.go")],
 "nil-guard, bounds (linear inequalities over path facts), assertion and precondition dataflow from peer data on SSA, in every calling context", "Operations on the program's own state and operator configuration are assumed in order; unbounded recursion, memory exhaustion and panics inside decoders are not covered.")

prop("C15", "Every protocol request gets exactly one answer with the right type",
 "Each FDO protocol handler writes exactly one answer on every path except where a failed negative device test deliberately ends the exchange: a protocol error message carrying an error status and message type 255, or a success answer with status 200 whose message-type header is the request's successor number; both have content type CBOR and a body. A request that is not a POST with CBOR content never gets the success answer, and a failed check never continues into it.",
 ["inputs", "histories"], "every path through the ten protocol handlers", T + "no test inspects responses.",
 ["core/rv", "core/do/to2", "core/shared/transport.go"], [("responders", "core/shared/transport.go, testcom/listener"), ("handlers", "core/rv/listener-*.go, core/do/to2/listener-*.go")],
 "path-sensitive response typestate (counts of answers per path) on SSA", "Path feasibility is judged by correlated nil/bool results only.")

prop("C16", "Protocol errors name the message and protocol they refer to",
 "An error answer produced while handling a protocol message names that message's number as the previous message, and and every conformance record made while handling it goes to the test run of the protocol (TO1 or TO2) that handler implements. Every one of the ten protocol message numbers is served under its standard path by a handler of its own.",
 ["inputs"], "every error path of every handler", T + "no test inspects error bodies.",
 ["core/rv", "core/do"], [("error responders", "RespondFDOError, Conf_RespondFDOError call sites"), ("routes", "core/rv/server.go, core/do/server.go")],
 "context-sensitive constant propagation to responder call sites (call-graph traversal)", "Exact: argument constants are resolved through helpers from each route.")

prop("C17", "Every listed negative test is actually carried out",
 "Each negative test identifier offered for a protocol message is realised by the code that handles that message: a listener's answer, a requestor's message, the arguments of the protocol step or the check of its answer depends on that identifier. Identifiers of voucher tests alter the voucher that both voucher generators return. No stage is offered an identifier it ignores, no identifier that is realised is missing from its catalogue, every stage's catalogue ends with the positive test, executors run the identifiers of their catalogues, and a corruption helper never returns what it was given.",
 ["configurations"], "every test identifier in the test catalogues", T + "no test enumerates the catalogue against the code.",
 ["core/shared/testcom", "core/do", "core/rv", "core/device", "testexec"], [("catalogues", "core/shared/testcom"), ("mutation branches", "handlers and requestors")],
 "exhaustiveness check: catalogue constants versus branch conditions in the call closure", "Decides that a guarded mutation exists, not that the mutation is a good one.")

prop("C18", "A conformance verdict is a pass only on evidence",
 "A negative test of a server is reported as passed only when the server answered that very request with a failing HTTP status and a decodable FDO error; a response check (CHECK_RESP) only on status 200 and a body that decodes as the answer and not as an error; a positive test only when its request, judged as in ordinary operation, succeeded (62: the entries received verify and lead to the owner key; 68: the owner said that it is done). Every test of the lists that are executed gets a verdict under its own identifier, in the run being executed; a failed set-up is never recorded as a pass. A device is passed on a message only if it is the one expected (or the last test was the positive one) and a test has been run, failed only if it is not, and a stage is closed only with its positive test, followed by the next message; failures go to the runner of the message's own protocol. A run counts as passing only if every test in it passed.",
 ["inputs", "histories"], "every place where a verdict is made or recorded", T + "verdict logic has no test.",
 ["testexec", "core/shared/testcom", "core/device", "core/do", "core/rv"], [("verdict helpers", "core/shared/testcom/methods.go, confCheckResponse of the requestors"), ("reporting", "testexec/*.go ReportTest"), ("devices", "PushSuccess/PushFail/CompleteCmdAndSetNext/CompleteTestRun in the handlers")],
 GUARD, "Decides which facts hold at every construction and recording of a verdict, and searches the executors' loops for a test without a verdict (an inner loop that reports is taken to report). Whether the error code is the one a test expects is not demanded: the code's own judges accept any FDO error. Concurrent requests of one device are not modelled.")

prop("C19", "Corruption is confined to the negative test that asked for it",
 "Deliberately corrupted data (fuzzed buffers, broken signatures, hashes, nonces, vouchers or encryption) enters a message or voucher only on paths where the active test identifier equals a specific negative test. Fresh random content outside such a path is limited to nonces that the protocol keeps. The active identifier is NULL_TEST unless the listener of this device has a run in progress for this protocol, in which case it is the next one of the stage that is expected; outside the test executors every step and generator is run with NULL_TEST. What is altered for a test does not outlive the message: the corruption helpers do not write into the data they are given, and no session, listener, requestor or database entry is altered under a negative test. A voucher generated for a negative test is filed under, and fetched by, that identifier.",
 ["inputs", "configurations"], "every call of a corruption helper and of a random source in the protocol packages, every answer and request of the protocol, every use of a test identifier", T + "no test compares ordinary traffic against test traffic.",
 ["core", "testexec"], [("corruption helpers", "core/shared/conformance.go, sims.tools.go"), ("test id guards", "handlers and requestors"), ("active identifier", "core/shared/testcom/listener GetNextTestID")],
 GUARD, "Decides every call site of every corruption helper, directly or as a function value. A helper counts as one if it is named Conf_*, or if it maps data to data of the same type, draws random numbers and is used under a negative test. Data that is corrupted by plain code (an assignment of a constant) outside a test is not recognised as corruption here; the rules of C01-C13 fix the ordinary content of the messages.")

prop("C20", "Listener test progress is stored before the peer sees the outcome",
 "When handling a device message changes the state of a running device conformance test (a result recorded, next test chosen, stage or run completed), the new state is durably written before a success answer is sent, and a write failure is answered with an error instead.",
 ["inputs", "crash_points"], "every path through the device-test handlers", T + "no test drives listener handlers.",
 ["core/rv/listener-to1.go", "core/do/to2", "core/shared/testcom/dbs/listener.db.go"], [("state changes", "RequestListenerRunnerInst methods"), ("persist", "ListenerTestDB.Update")],
 "path-sensitive dirty/clean typestate on SSA", "Two concurrent requests for one device are not modelled.")

prop("C21", "A started test run is always closed",
 "Every conformance execution that opens a test run closes it on every exit, including early failures, so that a run never remains in progress; results are reported only between opening and closing, for the test instance the execution was given.",
 ["inputs", "fault_sequences"], "every exit path of every executor", T + "executors have no test.",
 ["testexec"], [("open/close", "StartNewRun / FinishRun in testexec")],
 "pairing typestate on all exits (SSA, defers included)", "Panics are not modelled (see C14).")

prop("C22", "Every management API action requires an authenticated session",
 "Apart from the on-premises login, no management API handler reads or changes test, device or user data, starts a test execution or gives a success answer before the request's session cookie named a stored session that is logged in and whose user was loaded (logging out needs only the session itself). Sessions are created only by the login, for the fixed local account, and the session cookie carries the new session's identifier and is HttpOnly.",
 ["inputs"], "every API route and request", T + "the API has no tests.",
 ["api"], [("checkAutzAndGetUser", "api/testapi, api/commonapi"), ("routes", "api/server.go")],
 GUARD, "Decides all routes registered with the router.")

prop("C23", "Users can reach only their own test instances",
 "A management API request that names a test instance reads, executes, deletes or changes it only after that instance was found among the authenticated user's own instances of that kind, and listings contain only the user's own instances. New instances get fresh random identifiers and are added to the authenticated user's record, whose other contents are kept (a purge empties all of the user's lists together).",
 ["inputs"], "every API route with an instance identifier", T + "the API has no tests.",
 ["api/testapi", "dbs/user.structs.db.go"], [("ownership predicates", "dbs/user.structs.db.go *_ContainID"), ("handlers", "api/testapi/*.go")],
 GUARD, "Decides all handlers; predicate bodies are checked to search the right collection.")

prop("C24", "Protocol sessions expire and have unguessable identifiers",
 "Every write of a protocol or API session record carries an expiry, including updates of an existing session, and its identifier is a fresh random UUID; a lookup of an unknown or expired identifier returns an error.",
 ["inputs", "histories"], "every session write and lookup", T + "no test covers session storage.",
 ["core/rv/session.db.go", "core/do/dbs/session.db.go", "dbs/session.db.go"], [("session stores", "NewSessionEntry / UpdateSessionEntry / GetSessionEntry")],
 "typestate and provenance of badger entries on SSA", "UUID quality and badger expiry trusted.")

prop("C25", "A storage write reports success only when committed",
 "Every function that writes the database reports success only after its transaction was committed without error, and releases its transaction on every exit; the record is written under the same key prefix its reader and its remover use, and no two kinds of record share a prefix unless they are the session stores.",
 ["crash_points", "fault_sequences"], "every storage function and every failure point in it", T + "storage code has no tests.",
 ["core/rv", "core/do/dbs", "core/shared/testcom/dbs", "dbs"], [("transactions", "all functions calling badger NewTransaction/Update")],
 "pairing/ordering typestate on badger transactions plus key-prefix agreement", "badger's own durability trusted.")

prop("C26", "Hash and HMAC checks compare the recomputed value",
 "Verifying a hash or HMAC succeeds only if the value recomputed from the given data, with the algorithm the received structure names and (for HMACs) the given secret, equals the received value; unknown algorithms are errors. Computing supports exactly the FDO hash and HMAC types, each with its own algorithm.",
 ["inputs"], "every data, secret and algorithm identifier", T + "hashing has no test.",
 ["core/shared/hashing.crypto.go"], [("VerifyHash/VerifyHMac", "core/shared/hashing.crypto.go")],
 "success-return summaries plus dispatch-table extraction from SSA", "Go crypto trusted.")

prop("C27", "Signature verification binds key, algorithm and exact payload",
 "Verifying a COSE signature succeeds only if the public-key operation of the key's own type succeeded over the signature structure built from the received protected header and payload; verification against a certificate chain additionally requires the chain to verify and uses the leaf certificate's key. Signing builds the same structure, and each signature type selects the same hash in signing and verifying.",
 ["inputs"], "every signed message, key type and chain", T + "tests sign and verify valid ECDSA samples only.",
 ["core/shared/signing.crypto.go", "core/shared/signing.cose.go", "core/shared/signing.misc.go"], [("VerifySignature, VerifyCoseSignature*, VerifyCertificateChain", "core/shared")],
 "success-return summaries and sign/verify sibling table agreement on SSA", "Go crypto trusted.")

prop("C28", "Every negotiable cipher suite is complete and symmetric",
 "Each cipher suite the tool supports (the two GCM, the four CCM and the AES-128-CTR suite) has key-length, nonce, hash and algorithm parameters matching its definition in FDO 1.1, and encryption, decryption and deliberate corruption all support it through the same construction. A suite that is not supported (the CBC suites, AES-256-CTR) or not known is refused with an error by all of them.",
 ["configurations"], "all cipher suites", T + "one test touches one suite.",
 ["core/shared/enc.crypto.go", "core/shared/enc.*"], [("CipherSuitesInfoMap", "core/shared"), ("Add/RemoveEncryptionWrapping", "core/shared/enc.crypto.go")],
 "constant-table extraction and cross-function dispatch agreement (typed AST + SSA)", "The parameter table is compared against the FDO 1.1 specification values frozen in the checker.")

prop("C29", "Algorithm tables used in negotiation agree with each other",
 "The mappings between signature types, key types, key-exchange suites and hash/HMAC types cover every supported signature type and are mutually consistent, so that a negotiation accepted by one side selects parameters the other side supports.",
 ["configurations"], "all supported signature, key and key-exchange types", T + "no test enumerates the tables.",
 ["core/shared"], [("tables", "SgToHashHmacMap, SgTypeToFdoPkType, PkToSgType, SgTypeToKexSuitName, HmacToHashAlg")],
 "constant-table extraction from the typed AST", "Exact for the literal tables; a table built at run time would be reported as undecided.")

prop("C30", "Both key-exchange roles derive the key from the same inputs",
 "For every key-exchange suite, device and owner role combine the shared secret and both sides' random contributions in one and the same order, fixed width included, and feed them to the same derivation; each role uses its own stored contribution and the one received from the peer in this session. Unknown suites are errors.",
 ["inputs", "configurations"], "all key-exchange suites and both roles", T + "no test derives a key in both roles.",
 ["core/shared/kex.crypto.go"], [("DeriveSessionKey", "core/shared/kex.crypto.go")],
 "sibling-branch provenance comparison on SSA", "Structure of the derivation only; numeric correctness of curve arithmetic is trusted.")

prop("C31", "Secrets and nonces come from the cryptographic random source",
 "Nonces, key material, initialisation vectors, salts, device secrets and identifiers are produced only from the operating system's cryptographic random source, a buffer is used only after that source filled it whole, and no non-cryptographic generator is used outside deliberate corruption.",
 ["inputs"], "every call site of a random source", T + "randomness is not tested.",
 ["core/shared", "core/device", "api", "dbs"], [("NewRandomBuffer, NewFdoNonce", "core/shared"), ("key generation", "crypto packages with rand.Reader")],
 "who-may-call rule over resolved callees", "The operating system source is trusted.")

prop("C32", "Interop events are sent only when enabled and genuine",
 "An event is submitted to the interoperability logger only when interop mode is enabled and the exchange is ordinary, non-test traffic where a test could be active, after the protocol step succeeded, with the credentials configured for the component that sends it and the GUID and nonce of the session at hand. A failing submission does not change the protocol answer.",
 ["inputs", "configurations"], "every path that submits an event", T + "no test covers interop.",
 ["core/shared/interop.go", "core/rv", "core/do/to2", "core/device"], [("SubmitIopLoggerEvent call sites", "core/rv, core/do/to2, main.go")],
 GUARD, "Decides every submission call site.")

prop("C33", "Configuration is read the way it is stored",
 "Every configuration value the servers read from their context is stored there under that key with the type the reader expects before the server starts, so that no request fails on a missing or wrongly typed setting.",
 ["configurations"], "every configuration key and reader", T + "no test starts the server with its configuration.",
 ["main.go", "core", "api"], [("loading", "main.go loadEnvCtx"), ("reading", "ctx.Value call sites")],
 "writer/reader table agreement over typed call sites", "Exact for constant keys.")

prop("C34", "Wire messages keep their standard layout",
 "What the tool sends for, and reads from, each FDO message 20–33, 60–71 and 255 (and the structures inside them: voucher, voucher header and entries, signed and encrypted envelopes, EAT, COSE headers and keys) has the element order, element types and integer keys FDO 1.1 gives it; signatures and encrypted blocks carry CBOR tags 18 and 16, which reading requires; error codes, rendezvous variables and protocols, transport protocols and devmod names have the numbers and names the standard assigns; the value of each rendezvous variable and devmod entry is encoded and decoded with its standard type.",
 ["inputs"], "every protocol message value", T + "tests cover two structures.",
 ["core/shared"], [("message types", "core/shared/*.go struct definitions and cbor tags")],
 "shape computation over resolved Go types and struct tags, at the places provenance finds encoded for or decoded from a peer, against a frozen table of message definitions", "Layout only; the CBOR library is trusted. The envelope around encrypted messages follows what the repository's own tests pin (no outer tag).")

prop("C35", "Generated vouchers extend the chain correctly",
 "A generated ownership voucher carries a header with the device's GUID, certificate-chain hash and first owner key, an HMAC made with the device secret, and entries each signed by the preceding owner's key over the hash of what precedes; the private key returned with it belongs to the last entry (the given owner key where one is given). A failure to generate a key, to encode the header, to make the HMAC or to make an entry makes generation fail.",
 ["inputs", "configurations"], "every generated voucher", T + "voucher generation is exercised by no stable test.",
 ["core/device/genvoucher.go", "core/device/genvoucher_with_provided_keys.go"], [("entry generation", "core/device GenerateOvEntry*, NewVirtualDeviceAndVoucher*")],
 "value-provenance, loop-carried provenance and error-discipline dataflow on SSA", "Structure of the construction outside negative tests; crypto trusted.")

prop("C36", "Storage and verification errors are never dropped",
 "No error of a storage operation, of a signature, hash or HMAC verification, of a voucher check, of a key exchange or of an encryption or decryption is discarded: its result is used only after the error was found absent, and a message handler, API handler or function that reports errors never reports success on a path where such an operation failed (best-effort clean-up after a recorded failure excepted).",
 ["fault_sequences"], "every call site of the listed operations", T + "faults are not injected by any test.",
 ["core", "api", "dbs", "testexec", "main.go"], [("call sites", "all packages")],
 "error-discipline analysis over resolved callees (SSA use-def)", "Calls through interfaces outside the module are not covered; confirmed exceptions are listed in the checker.")

prop("C37", "Resetting users or tests removes exactly what it names",
 "The reset commands delete every record of the kinds they announce and no record of any other kind, and report success only if the deletion was committed.",
 ["histories", "fault_sequences"], "every database content", T + "reset commands are untested.",
 ["main.go", "dbs"], [("reset commands", "dbs ResetUsers / ResetDB")],
 "typestate and prefix provenance on badger iterators", "badger iteration semantics trusted.")

prop("C38", "Seeding is marked complete only after everything was stored",
 "First-time seeding stores the main configuration record, which marks seeding as done, only after every generated device credential batch was stored successfully; the marker lists exactly the identifiers of the stored credentials under the algorithm they were generated for; any failure aborts without the marker, the command reports it, and an unseeded database is seeded before the server starts serving.",
 ["crash_points", "fault_sequences"], "every failure or crash point during seeding", T + "seeding is untested.",
 ["seeding.setup.go", "dbs/config.db.go", "dbs/devicebase.db.go"], [("seeding", "seeding.setup.go")],
 GUARD, "Crash points are covered by the ordering of durable writes only.")

prop("C39", "Outgoing requests are bounded and their answers are checked",
 "Every request the tools send to a peer or external service has a time limit, and the response's body is released on every path. Outside conformance tests a protocol step of the device or owner succeeds only if the answer's HTTP status was 200, and the submission of an interop event succeeds only on status 200.",
 ["inputs", "fault_sequences"], "every outgoing HTTP request", T + "networking is untested.",
 ["core/shared/comms.go", "core/shared/interop.go"], [("SendCborPost", "core/shared/comms.go")],
 "resource typestate on SSA over HTTP call sites, plus must-facts at every successful exit of a protocol step", "Go's HTTP client trusted.")

prop("C43", "Every management request gets exactly one answer",
 "On every path a management API handler gives exactly one answer; error answers have a 4xx or 5xx status and a JSON body. Stored data is changed and test executions are started only by POST or DELETE requests, and requests whose body creates or executes something are refused unless their content type is JSON.",
 ["inputs", "fault_sequences"], "every API handler and every path through it", T + "the API has no tests.",
 ["api"], [("answers", "api/commonapi"), ("handlers", "api/testapi, api/*.go"), ("routes", "api/server.go")],
 "typestate on the response writer over all interprocedural paths, plus must-facts before effects", "Panics inside handlers are not counted as paths.")

prop("C44", "Owner and rendezvous addresses denote the URL they were made from",
 "An owner or rendezvous URL is accepted only when it is http or https with a host and a valid port. The address entry or rendezvous directive made from it denotes the same endpoint: transport and default port follow the scheme, an explicit port is kept, an IP host is given as its address bytes and any other host as a DNS name, never both. One directive is made per URL, in order.",
 ["inputs"], "every URL configured by the operator or entered by a user", T + "no test makes an address from a URL.",
 ["core/shared", "core/device"], [("URL parsing and address forms", "core/shared"), ("directives in vouchers", "core/device")],
 "conditional constant propagation through the address builders for every URL form, with provenance of every produced field", "Host names are taken as net.ParseIP and net/url report them.")

prop("C45", "The device and owner clients send genuine messages",
 "In a normal run every request of the device and owner clients (20, 22, 30, 32, 60, 62, 64, 66, 68, 70) goes to the configured peer under its own step's number, carries the session token most recently given by that peer, and carries the data its step prescribes. A replacement HMAC is sent exactly when the credential is not reused.",
 ["inputs", "histories"], "every client step on every path of a normal run", T + "no test drives the clients.",
 ["core/device/to1", "core/device/to2", "core/do/to0", "core/shared"], [("requests", "core/device/to1, core/device/to2, core/do/to0"), ("posting", "core/shared/comms.go")],
 "conditional constant propagation with the test identifier fixed to no test, plus provenance of every field sent", "The wait time asked for in message 22 is only required to be positive.")

prop("C46", "TO2 service info is exchanged completely and in order",
 "The owner collects all the device's service info and starts sending only after the mandatory entries are there and valid. It sends its entries once each, in order, one per message; it reports done exactly with the last one and accepts nothing after that. The owner's token is sent only to the device it is configured for. The device clients send every entry before asking for the owner's and send Done only after the owner reported done.",
 ["inputs", "histories"], "every phase of the exchange and every list of entries", T + "the one unit test validates a fixed list.",
 ["core/do/to2", "core/shared", "core/device/to2", "testexec"], [("owner side of the exchange", "core/do/to2/listener-to2-66-DeviceServiceInfoReady.go, core/do/to2/listener-to2-68-DeviceServiceInfo.go, core/do/to2/common.go"), ("mandatory entries", "core/shared/sims.reg.go, core/shared/sims.tools.go"), ("device drivers", "main.go, testexec/do.to2.68.execute.go, testexec/do.to2.70.execute.go")],
 "conditional constant propagation through the owner's handlers of messages 66 and 68 in every phase of the exchange, must-facts before validation and Done, and provenance of what both sides send", "Progress is decided for representative numbers of owner messages (0 to 3, 255, 256); session fields changed inside a newly extracted helper that gets the session by address are not followed.")

prop("C40", "Concurrent requests never lose test results or users' data",
 "When several requests update the same user, test or device record at the same time, the outcome equals some sequential order of them.",
 ["schedules"], "every interleaving of handlers", T + "tests are sequential.",
 ["dbs", "core/shared/testcom/dbs"], [("read-modify-write", "ReportTest, user updates")],
 na="Quantifies over interleavings of read-modify-write cycles kept in separate badger transactions; the code has no lock or single-transaction discipline for a static ordering rule to check, so a sound rule would only restate the absence of one.")

prop("C41", "Encoding then decoding any message returns the same message",
 "For every protocol message value, decoding its encoding returns an equal value.",
 ["inputs"], "all message values", T + "two round trips are sampled.",
 ["core/shared"], [("CBOR codec", "core/shared/cbor.go")],
 na="Round-trip equality is a statement about run-time values inside the CBOR library; the layout part that is visible in the source is claimed as C34.")

prop("C42", "Secret comparisons take time independent of the data",
 "No comparison of a MAC, password hash or token leaks through timing how much of it matched.",
 ["inputs"], "all compared values", T + "timing is not tested.",
 ["core/shared", "api"], [("comparisons", "bytes.Equal on HMACs")],
 na="The code compares MACs and hashes with ordinary equality by design of a test tool; timing depends on compiler and hardware and no source-level rule here decides it.")
