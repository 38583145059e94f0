#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = {
 "C01": ("differential property-based testing against an independent X9.24-1 reference, with an enumerated grid", "BDK, KSN (all lengths 4-10, every device bit, every counter class) generated in related batches"),
 "C02": ("differential property-based testing against an independent X9.24-1 reference, with counter sweeps", "random and related keys; blocks of consecutive counters swept completely (thorough: all 2^21 counters per key)"),
 "C03": ("differential and round-trip property-based testing with a validity predicate for PIN blocks", "every format x PIN length x PAN length enumerated, PINs/PANs/keys generated; foreign blocks built by the reference"),
 "C04": ("differential property-based testing against an independent retail MAC", "message lengths enumerated to 70 blocks and generated beyond, actions, related keys and messages"),
 "C05": ("differential and round-trip property-based testing", "messages, IVs of every length and actions generated; ciphertexts of the reference decrypted"),
 "C06": ("differential property-based testing against an independent X9.24-3 reference, with an enumerated grid", "all three key lengths, key IDs with every bit"),
 "C07": ("differential property-based testing against an independent X9.24-3 reference, with a key-tree grid", "every counter bit and pair of bits, all counter classes, all three key lengths"),
 "C08": ("differential, round-trip and freshness property-based testing", "every PIN length x PAN length x key type enumerated; foreign blocks built by the reference"),
 "C09": ("differential property-based testing against an independent CMAC/HMAC", "message lengths enumerated and generated, all key types and actions"),
 "C10": ("differential and round-trip property-based testing", "messages, IVs of every length and actions generated; ciphertexts of the reference decrypted"),
 "C11": ("model-based testing of KSN walks plus exhaustive counter sweeps", "thorough enumerates all 2^21 counters; quick sweeps blocks around every carry and the exhaustion point, and generated walks"),
 "C12": ("model-based testing of KSN walks plus counter sweeps", "generated counters of every class, blocks around carries and exhaustion, generated walks"),
 "C13": ("metamorphic and stateful property-based testing with guarded buffers under the race detector", "histories of calls over shared, guarded argument memory, repeated in permuted order and concurrently"),
 "C14": ("generated malformed-input testing (structure-aware fuzzing) with an explicit rejection oracle", "one or two arguments of a well-formed call damaged; every length 0-70 of every argument enumerated; PIN block headers enumerated"),
 "C23": ("differential property-based testing", "keys, blocks and lengths enumerated and generated; cipher objects used for many blocks in place and out of place"),
 "C25": ("differential property-based testing through the string API", "library-level cases rendered as hex in mixed letter case, malformed hex in each parameter"),
 "C26": ("metamorphic property-based testing of key separation over generated histories", "all keys of a history collected and compared; single effective bits flipped"),
 "C28": ("stateful model-based testing against a simulated X9.24 terminal", "stretches of terminal life from generated starting counters; the whole TDES life in thorough"),
 "C15": ("stateful model-based testing of service histories", "generated histories of create/get/list/delete and advances checked against a map after every step"),
 "C16": ("stateful model-based testing of service histories", "generated histories of advances and operations with the model's current key, on several machines incl. near exhaustion"),
 "C17": ("generated concurrent histories checked for linearizability, under the race detector", "direct, HTTP and yielding-repository variants; per-machine Wing-Gong search"),
 "C18": ("stateful model-based testing through the HTTP handler", "the service histories of C16 replayed as HTTP requests"),
 "C19": ("stateful model-based and generated raw-request testing (HTTP fuzzing)", "failing operations in histories and raw requests with damaged method, path, headers, bodies"),
 "C20": ("generated request testing with an exact header oracle", "origins x routes x methods enumerated and generated"),
 "C21": ("differential property-based testing of the built command", "generated invocations run as processes and compared with the reference"),
 "C22": ("generated malformed-invocation testing of the built command", "missing, empty or invalid sub flags; every sub flag of every command enumerated"),
 "C24": ("generated configuration testing of the built server process", "flags x environment, TLS, log format and signals"),
 "C27": ("stateful fault-injection testing with a model of the back end", "fault plans over histories: error before, after, or together with the effect"),
}
CLAIMED = os.environ.get("CLAIMED", "").split() or [p["id"] for p in props]
checks = []
for p in props:
    i = p["id"]
    if i not in CLAIMED:
        continue
    tech, note = T[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
      "technique": tech, "level": "exploration",
      "level_note": note + ". Explores generated cases only; trusts the reference model in harness/ref (self-tested against published vectors) and Go's block ciphers."})
na = [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in CLAIMED]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
 "notes": "No hooks in /repo: every check works through public interfaces, the built binaries and loopback sockets. known_findings.txt lists the defects repaired by fix: commits; none is left open."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
