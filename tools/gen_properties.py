#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

DES, DESI = "pkg/des/des.go", "pkg/des/des_internal.go"
AES, AESI = "pkg/aes/aes.go", "pkg/aes/aes_internal.go"
UT, WR = "pkg/util.go", "pkg/server/wrapper.go"
SV, RP, MC = "pkg/server/service.go", "pkg/server/repository.go", "pkg/server/machine.go"
HD, RT = "pkg/server/handlers.go", "pkg/server/routing.go"
CLI, SRV = "cmd/dukptcli/main.go", "cmd/server/main.go"
E1, E2 = "encryption/des_ecb.go", "encryption/aes_ecb.go"

prop("C01", "TDES initial keys follow ANSI X9.24-1 A.6 for every BDK and KSN",
 "For every 16-byte base derivation key and every key serial number of 4 to 10 bytes, the TDES initial key is the 16-byte key of ANSI X9.24-1 A.6: left-pad the KSN with FF bytes to 10 bytes, clear its 21-bit transaction counter, and encrypt its 8 leftmost bytes with two-key TDES under the BDK (left half) and under the BDK xored with C0C0C0C000000000C0C0C0C000000000 (right half). The result therefore does not depend on the counter value, so every KSN of one device yields the same initial key.",
 ["inputs"], "every 16-byte BDK, every KSN of 4..10 bytes (all bit patterns, counter bits included)",
 "The tests derive from one BDK and KSNs of one device (8- and 10-byte forms, counters 1..5); the rest of the key and KSN space is untouched.",
 [DES, DESI, E1], [("KSN padding, counter masking", DESI+": serializeKeySerialNumber/removeTransactionCounter"), ("two TDES encryptions", DES+": DerivationOfInitialKey")],
 ["des.DerivationOfInitialKey"])

prop("C02", "TDES transaction keys follow the X9.24-1 key tree for every counter",
 "For every 16-byte initial key and every 4- to 10-byte KSN, the derived TDES transaction key is the key that the ANSI X9.24-1 non-reversible key generation process reaches by applying one step per set bit of the 21-bit transaction counter, from the most to the least significant bit, each step using the 64 rightmost bits of the (FF-padded) KSN whose counter holds the bits processed so far. With a counter of zero the result is the initial key itself.",
 ["inputs"], "every initial key, every KSN, all 2^21 counter values",
 "The tests reach counters 1..5 (two low bits' worth of the tree) of one initial key; the upper 18 counter bits and every other device identifier are never exercised.",
 [DES, DESI, E1], [("counter bit walk", DES+": DeriveCurrentTransactionKey"), ("non-reversible key generation", DESI+": makeNonReversibleKey")],
 ["des.DeriveCurrentTransactionKey"])

prop("C03", "TDES PIN encryption is standard and decryption recovers the PIN",
 "For every 16-byte transaction key, 4-12 digit PIN, 13-19 digit PAN and supported 8-byte PIN block format name in any letter case (all the documented ones except ISO-4), PIN encryption yields exactly 8 bytes that decrypt, with two-key TDES under the X9.24-1 PIN variant of the key (bytes 8 and 16 xored with FF), to a well-formed PIN block of that format for that PIN and PAN. PIN decryption with the same key, PAN and format returns the PIN (its first 4 digits for ECI2, its first 6 for ECI3 and VISA2, as those formats carry no more), including when the block was made by another conforming implementation.",
 ["inputs"], "all keys, PIN lengths 4..12, PAN lengths 13..19, 13 formats, letter case of the format name",
 "The tests encrypt the PIN 1234 for one PAN in ISO-0 only; 12 formats and all other PIN lengths are never run.",
 [DES, DESI], [("formatter choice and block encoding", DES+": EncryptPin/DecryptPin"), ("PIN variant key", DESI+": encryptPinblock/decryptPinblock")],
 ["des.EncryptPin", "des.DecryptPin"])

prop("C04", "TDES MACs equal the X9.24-1 retail MAC for every message and direction",
 "For every 16-byte transaction key and every non-empty message, the TDES MAC is the 8-byte retail MAC of the zero-padded message: DES CBC-MAC with zero IV under the left half of the MAC variant key, then decrypted under the right half and encrypted under the left half. The variant xors FF into bytes 7 and 15 of the key for requests and into bytes 5 and 13 for responses; an action other than request or response counts as request.",
 ["inputs"], "all keys, messages of any length and content, any action string",
 "The tests MAC one 17-byte message under five keys of one device; block-aligned, single-block and long messages and arbitrary actions are never tried.",
 [DES], [("variant choice, CBC-MAC, final DEA transform", DES+": GenerateMac")], ["des.GenerateMac"])

prop("C05", "TDES data encryption is X9.24-1 CBC and decryption inverts it",
 "For every 16-byte transaction key, message, initial vector and action, TDES data encryption returns the zero-padded message encrypted in two-key TDES CBC mode under the X9.24-1 data key: the variant key (bytes 6 and 14 xored with FF for requests, bytes 4 and 12 for responses; any other action counts as request) encrypted in two halves under itself. Data decryption with the same key, IV and action returns the zero-padded message, also for ciphertexts of another conforming implementation; both directions take a missing IV as zero, extend a short one with zero bytes and use the first 8 bytes of a long one.",
 ["inputs"], "all keys, messages of any length and content, IVs of any length, any action string",
 "The tests encrypt one 17-byte message with no IV; no test passes an IV, an aligned message or a long one.",
 [DES], [("data key one-way transform, CBC", DES+": EncryptData/DecryptData")], ["des.EncryptData", "des.DecryptData"])

prop("C06", "AES initial keys follow X9.24-3 for 128-, 192- and 256-bit BDKs",
 "For every base derivation key of 16, 24 or 32 bytes and every 8-byte initial key ID (passed alone or as the first 8 bytes of a KSN), the AES initial key has the length of the BDK and equals the ANSI X9.24-3 key: the leftmost bytes of the AES-ECB encryptions, under the BDK, of the derivation data blocks (version 01, block counter 01 and up, usage 8001, algorithm and length indicators of the BDK's key type, the initial key ID). It does not depend on the transaction counter.",
 ["inputs"], "all BDKs of the three sizes, all initial key IDs, KSN with and without counter",
 "The tests derive one AES-128 initial key; 192- and 256-bit BDKs are never used.",
 [AES, AESI, E2], [("derivation data", AESI+": createDerivationData"), ("multi-block key derivation", AESI+": derivationKey")],
 ["aes.DerivationOfInitialKey"])

prop("C07", "AES transaction keys follow the X9.24-3 key tree for every counter",
 "For every initial key of 16, 24 or 32 bytes and every 12-byte KSN, the AES transaction key has the length of the initial key and equals the key obtained by the X9.24-3 derivation applied once per set bit of the 32-bit transaction counter, from the most to the least significant bit, with usage 8000, the key's own type, the rightmost 4 bytes of the initial key ID and the counter bits processed so far. With a counter of zero the result is the initial key itself.",
 ["inputs"], "all initial keys of the three sizes, all KSNs, all 32-bit counter values",
 "The tests reach counters 1..8 of one AES-128 device; higher counter bits and 192/256-bit keys are never exercised.",
 [AES, AESI, UT], [("counter bit walk", AES+": DeriveCurrentTransactionKey"), ("derivation", AESI+": createDerivationData/derivationKey")],
 ["aes.DeriveCurrentTransactionKey"])

prop("C08", "AES PIN encryption is ISO format 4 under the PIN key and decryption inverts",
 "For every transaction key of 16, 24 or 32 bytes with its matching key type, 12-byte KSN, 4-12 digit PIN and 12-19 digit PAN, PIN encryption yields a 16-byte enciphered ISO 9564 format 4 PIN block that opens, under the X9.24-3 working key of usage 1000 of that key type and counter, to exactly that PIN and PAN; repeated encryptions differ by their random field. PIN decryption with the same arguments returns the PIN, including for blocks made by another conforming implementation.",
 ["inputs"], "all keys of the three sizes, all KSNs, PIN lengths 4..12, PAN lengths 12..19",
 "The tests round-trip the PIN 1234 with one PAN through this library's own decryption under AES-128 only.",
 [AES, AESI], [("PIN working key", AESI+": generateDerivationKey"), ("ISO-4 formatter over AES", AES+": EncryptPin/DecryptPin")],
 ["aes.EncryptPin", "aes.DecryptPin"])

prop("C09", "AES-CMAC and HMAC outputs follow X9.24-3 for every message and direction",
 "For every transaction key, matching key type, 12-byte KSN, message (possibly empty) and action, the CMAC is the 16-byte AES-CMAC (RFC 4493) and the HMAC the 32-byte HMAC-SHA-256 of the message under the X9.24-3 working key derived for that counter with usage 2000 for requests and 2001 for responses (any other action counts as request), with the algorithm and length indicators of the key type (AES128/192/256 or HMAC128/192/256).",
 ["inputs"], "all keys of the three sizes, all KSNs, messages of any length, any action string",
 "The tests MAC one 17-byte message under eight AES-128 keys; empty, block-aligned and long messages and the larger key types are never tried.",
 [AES, AESI], [("MAC working key", AESI+": generateDerivationKey"), ("CMAC/HMAC", AES+": GenerateCMAC/GenerateHMAC")],
 ["aes.GenerateCMAC", "aes.GenerateHMAC"])

prop("C10", "AES data encryption is X9.24-3 CBC and decryption inverts it",
 "For every transaction key, matching key type, 12-byte KSN, message, initial vector and action, AES data encryption returns the zero-padded message encrypted in AES-CBC under the X9.24-3 working key of that key type and counter with usage 3000 for requests and 3001 for responses (any other action counts as request). Data decryption with the same arguments returns the zero-padded message, also for ciphertexts of another conforming implementation; both directions take a missing IV as zero, extend a short one with zero bytes and use the first 16 bytes of a long one.",
 ["inputs"], "all keys of the three sizes, all KSNs, messages of any length, IVs of any length, any action string",
 "The tests encrypt one 17-byte message with no IV under AES-128; no test passes an IV or an aligned or long message.",
 [AES, AESI], [("data working key, CBC", AES+": EncryptData/DecryptData")], ["aes.EncryptData", "aes.DecryptData"])

prop("C11", "The next TDES KSN is always the next valid counter, until exhaustion",
 "For every KSN of 4 to 10 bytes, advancing it returns a KSN of the same length that keeps every bit outside the 21-bit counter and whose counter is the smallest value greater than the current one with at most ten one bits; when no such value exists (from counter 1FF800 on) advancing fails with an error instead of wrapping or reusing a counter. The counter read from a KSN is always its 21 rightmost bits.",
 ["inputs", "histories"], "all KSNs, all 2^21 counters, histories of repeated advancing up to exhaustion",
 "One test advances a KSN once, from 1 to 2; skipped counters, carries across bytes, the device bits sharing a byte with the counter, and exhaustion are never reached.",
 [UT], [("increment, skip and exhaustion", UT+": GenerateNextDesKsn"), ("counter extraction", UT+": GetDesTcFromKsn")],
 ["pkg.GenerateNextDesKsn", "pkg.GetDesTcFromKsn"])

prop("C12", "The next AES KSN is always the next valid counter, until exhaustion",
 "For every 12-byte KSN, advancing it returns a 12-byte KSN with the same 8-byte initial key ID whose 32-bit counter is the smallest value greater than the current one with at most sixteen one bits; when no such value exists (from counter FFFF0000 on) advancing fails with an error instead of returning an invalid or reused counter. The counter read from a KSN is its 4 rightmost bytes, and a 12-byte KSN is reported valid exactly when its counter is non-zero and has at most sixteen one bits.",
 ["inputs", "histories"], "all 12-byte KSNs, all 32-bit counters, histories of repeated advancing up to exhaustion",
 "The tests advance one KSN from 0 to 8; counters with more than 16 one bits, carries and exhaustion are never reached.",
 [UT], [("increment, skip and exhaustion", UT+": GenerateNextAesKsn"), ("validity", UT+": IsValidAesKsn")],
 ["pkg.GenerateNextAesKsn", "pkg.GetAesTcFromKsn", "pkg.IsValidAesKsn"])

prop("C13", "Library calls are pure: inputs untouched, results independent, reentrant",
 "No key derivation, KSN, PIN, MAC, data, hex or block cipher function of the library changes any byte of the slices it is given, nor of the memory behind them up to their capacity, and no returned slice shares memory with an argument or with an earlier result. Repeating a call with equal arguments gives an equal result (the random fields of PIN blocks aside) whatever was called before, and concurrent calls sharing the same argument slices are free of data races and give the same results as sequential ones.",
 ["inputs", "histories", "schedules"], "all public functions of pkg, pkg/aes, pkg/des and encryption; slices with spare capacity or shared; any interleaving of calls, sequential or concurrent",
 "The tests pass exactly sized literals, one call at a time, and never look at the arguments afterwards.",
 [UT, AES, AESI, DES, DESI, E1, E2], [("defensive copies of keys, KSNs, IVs", "pkg/des, pkg/aes"), ("derivation data building", AESI+": createDerivationData")],
 ["public functions of pkg, pkg/aes, pkg/des, encryption"])

prop("C14", "Malformed library input is rejected with an error, never a panic or a guess",
 "No argument, of whatever length or content, makes a public library function panic or loop. A TDES key or BDK that is not 16 bytes, an AES key or BDK that is not 16, 24 or 32 bytes or does not match the key type, an unknown AES key type, a TDES KSN longer than 10 bytes, an AES initial key ID shorter than 8 bytes, an AES KSN that is not 12 bytes for key derivation, PIN, MAC, data or advancing (under 4 or over 10 bytes for advancing a TDES KSN), an unknown PIN block format, a PIN of fewer than 4 characters or more than 12 (more are cut off by ISO-1, ISO-2, ECI4 and VISA3), a PAN that is too short for its format, and a PIN ciphertext that is not one cipher block long each return an error and no result.",
 ["inputs"], "arbitrary byte strings and text for every argument of every public function",
 "The tests pass only well-formed arguments, so no rejection path is ever executed.",
 [AES, AESI, DES, DESI, UT, E1, E2], [("length and type checks", AESI+": checkWorkingKeyLength*"), ("length checks", DESI+", "+DES)],
 ["public functions of pkg, pkg/aes, pkg/des, encryption"])

prop("C15", "The machine registry behaves as a map from initial key to machine",
 "Over every history of creating, getting, listing and deleting machines, the service holds exactly the machines created and not yet deleted, keyed by the lower-case hex initial key that follows from their base key, each with its base key fields, its current KSN and the transaction key of that KSN. Creating a machine whose initial key is already present fails with the already-exists error and leaves the stored one unchanged, an unknown algorithm or a BDK of wrong length or malformed hex or a nil machine is refused and stores nothing, getting an unknown machine fails with the not-found error, and deleting affects only the named machine and succeeds also when it is absent.",
 ["histories"], "all histories of create/get/list/delete/advance over colliding and distinct base keys of both algorithms; callers changing machines they passed in or received",
 "The tests run three short fixed scripts with one machine per algorithm; re-creation after deletion or advancing, collisions between different KSNs of a device, and refusals are not covered.",
 [SV, RP, MC], [("create/get/delete", SV), ("map store", RP)], ["server.Service", "server.Repository"],
 [("machines", "initial key -> machine", RP)])

prop("C16", "Service operations always use the machine's current transaction key",
 "After any history of advances and operations on any number of machines, a machine's current KSN is the initial one advanced once per successful advance of that machine, its transaction key is the one derived from its initial key for that KSN, and PIN, MAC (CMAC or HMAC by request; the default PIN format is ISO-0) and data operations give the result that the standard defines for that key, KSN and algorithm, so that what is encrypted at one KSN decrypts at that KSN. An operation that fails, including an advance past the last counter, changes no machine, and no operation on one machine affects another.",
 ["histories"], "all histories of advance/encrypt/decrypt/MAC calls with valid and invalid arguments over machines of both algorithms and all key sizes, up to exhaustion",
 "The tests call each operation once on a fresh machine; no operation is tested after an advance, after a failure, or with several machines.",
 [SV, WR], [("advance", SV+": MakeNextKSN"), ("operation parameters", SV+": EncryptPin..DecryptData"), ("dispatch", WR)], ["server.Service"],
 [("CurrentKSN, TransactionKey", "key state of a machine", MC)])

prop("C17", "Concurrent service use never reuses a KSN, tears state or races",
 "Under any interleaving of concurrent calls on one service (directly or through its HTTP handler) and its in-memory repository, no two successful advances of a machine return the same KSN and none is lost, every returned machine pairs its KSN with that KSN's transaction key, every operation's result is the one for a KSN the machine had during the call, exactly one of several concurrent creations of the same machine succeeds, and the machines present at the end are those some sequential order of the calls would leave. There are no data races and no call blocks forever.",
 ["schedules", "histories"], "all interleavings of create/get/list/advance/delete/PIN/MAC/data calls by several goroutines on shared machines",
 "Every test is single-threaded.",
 [SV, RP, HD], [("service locking", SV), ("repository locking", RP)], ["server.Service", "server.Repository", "server.MakeHTTPHandler"],
 [("machines", "shared machine state", RP)])

prop("C18", "Each HTTP endpoint performs its documented operation faithfully",
 "Each documented route performs the operation it names on the addressed machine and answers 200 with the result in its JSON field: listing and getting machines, creating (initial key and machine), advancing (the new KSN), encrypting and decrypting PINs and data, and MACs, with all request fields honoured (pin, pan, format, action, macType, data, iv, encrypted). What was encrypted through the API is decrypted by the corresponding decrypt route at the same KSN, and over any sequence of requests the answers are those the standard defines for the machine's current KSN.",
 ["inputs", "histories"], "all sequences of valid requests to the nine API routes over machines of both algorithms and all key sizes; any letter case of the JSON field names",
 "The tests drive only ping, create, list and get over HTTP with one machine; none of the seven crypto and KSN routes is ever called.",
 [HD, RT, SV], [("request decoding and endpoints", HD), ("routes", RT+": MakeHTTPHandler")], ["server.MakeHTTPHandler"])

prop("C19", "Failed HTTP requests say so and change nothing; no request crashes",
 "Every HTTP request, whatever its method, path, headers and body, gets an answer without a panic. A request that cannot be performed (malformed JSON or hex, unknown algorithm, wrong key, KSN, PIN, PAN or ciphertext length, unsupported format or MAC type, exhausted counter, unknown or duplicate machine) is answered with status 400 or above, 404 when the machine is unknown and 400 when it already exists, and a JSON object whose error member is a non-empty string, and leaves every machine as it was.",
 ["inputs", "histories"], "arbitrary requests: unknown routes and methods, malformed and mistyped JSON, invalid field values, in any sequence with valid ones",
 "The tests only send valid requests and never look at an error answer.",
 [HD, RT, SV, WR], [("error encoding and status codes", RT+": encodeResponse/encodeError/codeFrom"), ("request decoding", HD)], ["server.MakeHTTPHandler"])

prop("C20", "CORS headers go exactly to allowed origins; preflight and ping always work",
 "A request that reaches its endpoint, a GET /ping, and an OPTIONS request to any path carry Access-Control-Allow-Origin equal to the request's Origin, with Allow-Credentials true and the allowed methods and headers, exactly when that Origin starts with https:// or http://localhost: ; for any other or absent Origin none of these headers is sent. GET /ping answers 200 PONG, OPTIONS answers 200 with no effect on the machines, and JSON answers are labelled application/json with UTF-8.",
 ["inputs"], "all Origin header values, all paths and routes, success and failure answers",
 "The tests use a single https origin on success answers; disallowed origins, preflight requests and localhost origins are never tried.",
 [RT], [("CORS before/after hooks, preflight, ping", RT)], ["server.MakeHTTPHandler"])

prop("C21", "The command line computes the same results as the library",
 "For every algorithm, documented AES key type (aes128, aes192, aes256 in any letter case) and execution flag with its sub flags, the command line exits 0 and prints one line RESULT: followed by exactly the value the standard defines, in lower-case hex (decrypted PINs and data as text), honouring KSN, IV, action, MAC type and PIN format. With several execution flags set only the first in the order ik, tk, ep, dp, gm, en, de runs, -v prints the version and nothing else, and values printed by the encrypting commands decrypt through the decrypting ones.",
 ["inputs", "configurations"], "all combinations of algorithm, key type, execution flags and sub flag values",
 "The command line has no tests at all.",
 [CLI, WR], [("flag handling and dispatch", CLI), ("hex conversion and algorithm dispatch", WR)], ["dukptcli process: exit status, standard output"])

prop("C22", "The command line refuses incomplete or invalid input and prints no result",
 "When a required sub flag of the selected command is missing or empty, the algorithm, action of a MAC, MAC type or AES key type is not a documented one where it matters, a hex value is malformed or of wrong length, or PIN, PAN or format are not acceptable, or no command is selected, the command line exits with a non-zero status, prints an explanation and no RESULT line. It never crashes, whatever the arguments are.",
 ["inputs", "configurations"], "all argument lists derived from valid ones by dropping or corrupting values, and arbitrary ones",
 "The command line has no tests at all.",
 [CLI, WR], [("required flag checks", CLI), ("parameter validation", WR)], ["dukptcli process: exit status, output"])

prop("C23", "ECB ciphers and hex helpers are exact and reject what they cannot handle",
 "The AES, DES and triple-DES ECB ciphers accept exactly the key sizes of their cipher (16/24/32, 8, and 16 or 24 bytes, a 16-byte TDES key meaning K1 K2 K1), encrypt and decrypt exactly one block as the bare cipher does, and refuse any other input length. Hex encoding gives lower-case hex, decoding accepts either case and inverts it, malformed text decodes to nothing, and both map empty to empty.",
 ["inputs"], "all keys and inputs of any length; all strings",
 "These packages have no tests of their own; other tests use them with one or two keys.",
 [E1, E2, UT], [("ECB wrappers", E1+", "+E2), ("hex helpers", UT)], ["encryption.NewAesECB/NewDesECB/NewTripleDesECB", "pkg.HexEncode/HexDecode"])

prop("C24", "The server process serves the API where configured and stops on signals",
 "Started with any combination of listen address flags and environment variables, the server serves the DUKPT API on the API address and version and liveness on the admin address, where a non-empty environment variable (HTTP_BIND_ADDRESS, HTTP_ADMIN_BIND_ADDRESS) overrides its flag (-http.addr, -admin.addr), and over TLS 1.2 or newer exactly when both certificate and key files are configured. Log lines are JSON exactly when the log format (a non-empty LOG_FORMAT over -log.format) is json. SIGINT or SIGTERM ends the process cleanly with exit status 0: no new connections are taken, and a request in progress is still answered.",
 ["configurations"], "all combinations of address flags, environment variables, TLS and log format settings, and either signal",
 "The server command has no tests at all.",
 [SRV], [("flag and environment handling, listeners, shutdown", SRV)], ["server process: sockets, standard output, exit status"])

prop("C25", "The unified string-level calls agree with the standard and check their hex",
 "The unified calls (initial key, transaction key, PIN encryption and decryption, MAC, data encryption and decryption) select TDES or AES by the algorithm name and return exactly the standard's result for their hex-encoded parameters, as lower-case hex, or as text for decrypted values; hex parameters may be in either letter case. Malformed hex in any key, KSN, IV or ciphertext parameter the call uses, and an AES MAC type other than cmac or hmac, is an error, and algorithm validation accepts exactly des and aes.",
 ["inputs"], "all parameter sets for both algorithms, all key sizes and MAC types, well-formed and malformed hex",
 "The unified calls are only tested through single service calls with one key per algorithm and well-formed hex.",
 [WR], [("dispatch and hex conversion", WR)], ["server.InitialKey, TransactionKey, EncryptPin, DecryptPin, GenerateMac, EncryptData, DecryptData, UnifiedParams.ValidateAlgorithm"])

prop("C26", "No key is ever reused across counters, devices, purposes or directions",
 "Along any history of advancing a KSN, all transaction keys are distinct, and they differ between devices and between base keys. For one transaction key the PIN, MAC and data results for equal content differ by purpose, requests differ from responses, and changing the KSN or key in any effective bit changes the MAC and ciphertext and makes decryption not return the original data.",
 ["inputs", "histories"], "all initial keys, KSN histories and pairs of KSNs, devices, purposes and directions, both algorithms",
 "The tests compare each value with a constant and never two derivations with each other, for at most eight counters of one device.",
 [DES, DESI, AES, AESI, UT], [("variants and usages", "pkg/des/des.go, pkg/aes/aes_internal.go"), ("key tree", "DeriveCurrentTransactionKey of both packages")],
 ["des and aes public functions, pkg.GenerateNext*Ksn"])

prop("C27", "Storage failures are reported and never turn into success or a crash",
 "For every sequence of failures of a storage back end supplied to the service, creating a machine or deleting one fails with the back end's error when the back end reports one, and getting, advancing and every PIN, MAC and data operation fails when the machine cannot be found; a failed call returns no machine and no result. Such failures do not disturb later calls: once the back end works again the service continues from the last state the back end holds.",
 ["fault_sequences", "histories"], "all placements of store/find/delete errors within histories of service calls",
 "The tests use only the in-memory repository, which never fails on store or delete.",
 [SV, RP], [("error propagation", SV)], ["server.NewService with a custom server.Repository"])

prop("C28", "A terminal holding only future keys and the host agree on every transaction",
 "Starting from the initial key the library derives, a terminal that follows the X9.24 originator procedure (future key registers, each key erased after use, skipping counters with too many one bits) and a host that derives each key from BDK and KSN use the same KSN sequence and the same transaction key for every transaction of the terminal's life. PINs, MACs and data produced by the terminal with its current key are recovered and verified by the host from BDK and KSN alone.",
 ["histories"], "all terminal histories: any BDK and device, any start point, any number of transactions up to exhaustion, both algorithms and all AES key sizes",
 "The tests never model a terminal and cover at most eight consecutive transactions.",
 [DES, DESI, AES, AESI, UT], [("KSN advance", UT), ("derivation", "pkg/des, pkg/aes")], ["des and aes public functions, pkg.GenerateNext*Ksn"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
