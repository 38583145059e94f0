package props

import (
	"verifharness/eng"

	"pgregory.net/rapid"
)

// All lists every property.
func All() []*eng.Property {
	r := libProps()
	r = append(r,
		&eng.Property{ID: "C13", Rule: "one case is one library call inside a history with guarded argument and result memory; all are non-trivial (every call is repeated in another order, half of the histories also concurrently)", Groups: []*eng.Group{
			eng.Enum("first use", coldStart, checkPure),
			eng.Prop("histories", 12000, 300000, drawPure, checkPure),
			eng.Prop("cipher objects", 4000, 100000, drawEcbObj, checkEcbConc),
			eng.Prop("kept results", 1200, 40000, drawKept, checkKept),
		}},
		&eng.Property{ID: "C14", Rule: "one case is one library call with malformed arguments; all are non-trivial (each is refused as specified, or at least neither panics nor hangs)", Groups: []*eng.Group{
			eng.Prop("mutations", 400000, 8000000,
				func(t *rapid.T) Batch { return drawBatch(G{t}, 4, drawMalformed) }, checkMalformed),
			enumMalformed("lengths", lengthGrid),
			enumMalformed("names", wordGrid),
			enumMalformed("digits", digitGrid),
			enumMalformed("PIN block headers", pinBlockGrid),
		}},
		&eng.Property{ID: "C23", Rule: "one case is one cipher or hex call, or one cipher object used for several blocks; all are non-trivial", Groups: []*eng.Group{
			eng.Prop("calls", 400000, 8000000, func(t *rapid.T) Batch { return drawBatch(G{t}, 5, drawPrimAny) }, checkPrim),
			eng.Enum("grid", func(yield func(*Batch) bool) {
				i := 0
				primGrid(func(c Call) bool {
					i++
					return !eng.Mine(i) || yield(&Batch{Calls: []Call{c}})
				})
			}, checkPrim),
			eng.Prop("cipher objects", 40000, 800000, drawEcbObj, checkEcbObj),
		}},
		&eng.Property{ID: "C25", Rule: "one case is one unified call compared with the reference, or one with malformed hex, MAC type or algorithm name; all are non-trivial", Groups: []*eng.Group{
			eng.Prop("calls", 1000000, 8000000, drawUnified, checkUnified),
			eng.Enum("names", unifiedNames, checkUnified),
			eng.Enum("words", unifiedGrid, checkUnified),
			eng.Enum("texts", unifiedTexts, checkUnified),
			eng.Enum("long", unifiedLong, checkUnified),
		}},
		&eng.Property{ID: "C26", Rule: "one case is one transaction key inside a history, or one separation case (two directions, all purposes, and one changed bit in KSN, BDK and transaction key); all are non-trivial", Groups: []*eng.Group{
			eng.Prop("histories", 24000, 500000, drawHistory, checkHistory),
			eng.Prop("separation", 40000, 800000, drawSeparation, checkSeparation),
		}},
		&eng.Property{ID: "C28", Rule: "one case is one transaction of a simulated terminal; of the whole-life stretches those are non-trivial whose key is compared too", Groups: []*eng.Group{
			eng.Prop("stretches", 20000, 400000, drawLife, checkLife),
			wholeGroup(),
		}},
		&eng.Property{ID: "C15", Rule: "one case is a history of service calls, compared with a map after every call; it is non-trivial when a machine was created", Groups: []*eng.Group{
			eng.Prop("histories", 40000, 1000000, drawHist(profile{types: true, unk: 6, wild: 8, weight: map[string]int{"create": 8, "get": 5, "list": 2, "delete": 4, "next": 3, "encpin": 1, "mac": 1, "dec": 1}}, 20), checkHist(false)),
			eng.Enum("names", nameGrid(false), checkHist(false)),
			eng.Prop("waits", 4000, 100000, drawClock(profile{types: true, unk: 8, wild: 12, weight: map[string]int{"create": 8, "get": 5, "list": 2, "delete": 3, "next": 3, "encpin": 1, "mac": 1, "dec": 1}}, 14), checkHist(false)),
			eng.Prop("repository", 16000, 1000000, drawStore, checkStore),
			eng.Enum("long runs", longRuns(false), checkHist(false)),
		}},
		&eng.Property{ID: "C16", Rule: "one case is a history of service calls, the outcome of each compared with the standard for the machine's current key; it is non-trivial when a machine was created", Groups: []*eng.Group{
			eng.Prop("histories", 36000, 900000, drawHist(profile{types: true, unk: 20, wild: 8, weight: map[string]int{"create": 4, "get": 1, "list": 1, "delete": 1, "next": 6, "encpin": 4, "decpin": 4, "mac": 4, "enc": 4, "dec": 4}}, 20), checkHist(false)),
			eng.Prop("waits", 4000, 100000, drawClock(profile{types: true, unk: 30, wild: 20, weight: map[string]int{"create": 4, "get": 1, "list": 1, "delete": 1, "next": 6, "encpin": 3, "decpin": 3, "mac": 3, "enc": 3, "dec": 3}}, 14), checkHist(false)),
			eng.Enum("long runs", longRuns(false), checkHist(false)),
		}},
		&eng.Property{ID: "C18", Rule: "one case is a history of HTTP requests, the answer to each compared with the standard for the machine's current key; it is non-trivial when a machine was created", Groups: []*eng.Group{
			eng.Prop("histories", 28000, 700000, drawHist(profile{types: true, http: true, unk: 40, wild: 40, weight: map[string]int{"create": 5, "get": 3, "list": 2, "delete": 1, "next": 6, "encpin": 4, "decpin": 4, "mac": 5, "enc": 4, "dec": 4}}, 16), checkHist(false)),
			eng.Enum("names", nameGrid(true), checkHist(false)),
			eng.Prop("waits", 3000, 80000, drawClock(profile{types: true, http: true, unk: 40, wild: 40, weight: map[string]int{"create": 5, "get": 3, "list": 2, "delete": 1, "next": 6, "encpin": 3, "decpin": 3, "mac": 3, "enc": 3, "dec": 3}}, 12), checkHist(false)),
			eng.Enum("long runs", longRuns(true), checkHist(false)),
		}},
		&eng.Property{ID: "C19", Rule: "one case is a history of HTTP requests of which many must fail, or of raw requests with damaged methods, paths, headers and bodies; non-trivial when a machine was created (histories), all (raw)", Groups: []*eng.Group{
			eng.Prop("histories", 20000, 500000, drawHist(profile{types: true, http: true, badKsn: true, unk: 6, wild: 2, weight: map[string]int{"create": 5, "get": 2, "list": 1, "delete": 2, "next": 4, "encpin": 4, "decpin": 4, "mac": 3, "enc": 3, "dec": 3}}, 12), checkHist(true)),
			eng.Enum("names", nameGrid(true), checkHist(true)),
			eng.Prop("raw requests", 28000, 1000000, drawRaw, checkRaw),
			eng.Enum("bodies", frameGrid, checkRaw),
			eng.Enum("methods", methodGrid, checkRaw),
			eng.Enum("long runs", longRuns(true), checkHist(true)),
		}},
		&eng.Property{ID: "C20", Rule: "one case is one HTTP request with an Origin, or several to one handler one after the other, nested or concurrent; all are non-trivial", Groups: []*eng.Group{
			eng.Prop("requests", 100000, 2000000, drawCors, checkCors),
			eng.Prop("several requests", 12000, 300000, drawCorsSeq, checkCorsSeq),
			eng.Enum("grid", corsGrid, checkCors),
			eng.Enum("headers", headGrid, checkCors),
		}},
		&eng.Property{ID: "C27", Rule: "one case is a history of service calls (directly or over HTTP) on a back end that fails during some of them; it is non-trivial when it has such a failure", Groups: []*eng.Group{
			eng.Prop("fault histories", 60000, 1000000, drawFault, checkFault),
		}},
		&eng.Property{ID: "C17", Rule: "one case is a set of call sequences made concurrently, explained by a sequential order per machine, or a storm of concurrent creations, advances and reads; non-trivial with more than one concurrent call", Groups: []*eng.Group{
			eng.Prop("concurrent calls", 6000, 300000, drawConc, checkConc),
			eng.Prop("unobserved", 3000, 200000, drawBlind, checkConc),
			eng.Prop("storms", 2400, 60000, drawHammer, checkHammer),
			eng.Enum("crowds", crowds, checkCrowd),
		}},
		&eng.Property{ID: "C21", Rule: "one case is one run of the command line with a complete command (for encryptions a second run decrypts the output), or a request for the version; all are non-trivial", Groups: []*eng.Group{
			eng.Prop("commands", 16000, 400000, drawCliResult, checkCli),
			eng.Enum("texts", cliTexts, checkCli),
			eng.Enum("long", cliLong, checkCli),
		}},
		&eng.Property{ID: "C24", Rule: "one case is one life of a server process, from its start with some combination of flags, environment and certificates to its end by a signal; all are non-trivial", Groups: []*eng.Group{
			eng.Prop("processes", 1600, 24000, drawProc, checkProc),
			eng.Enum("slow requests", slowRequests, checkProc),
		}},
		&eng.Property{ID: "C22", Rule: "one case is one run of the command line with something missing or wrong, or with arbitrary arguments; all are non-trivial", Groups: []*eng.Group{
			eng.Prop("refusals", 14000, 300000, drawCliRefusal, checkCli),
			eng.Prop("arguments", 8000, 200000, drawCliAny, checkCli),
			eng.Enum("missing flags", missingFlags, checkCli),
			eng.Enum("words", cliWords, checkCli),
		}},
	)
	return r
}
