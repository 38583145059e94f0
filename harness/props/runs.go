package props

import (
	"verifharness/eng"
)

// longRuns has, for each operation, long runs of it alone and in turn with
// others, as it should be and as it has to be refused.
func longRuns(http bool) func(yield func(*SHist) bool) {
	bases := []Base{
		{Alg: "des", Bdk: "0123456789abcdeffedcba9876543210", Ksn: "FFFF9876543210E00001"},
		{Alg: "aes", Kt: "AES128", Bdk: "0123456789abcdeffedcba9876543210", Ksn: "123456789012345600000001"},
		{Alg: "des", Bdk: "76543210fedcba980123456789abcdef", Ksn: "FFFF9876543210E00008"},
		{Alg: "aes", Kt: "AES256", Bdk: "76543210fedcba980123456789abcdef76543210fedcba980123456789abcdef", Ksn: "123456789012345600000001"},
	}
	ops := append([]SOp{}, plainOps...)
	ops = append(ops,
		SOp{Op: "encpin", Pin: "123", Pan: "4012345678909", Fmt: "ISO-0"},
		SOp{Op: "encpin", Pin: "1234", Pan: "4012", Fmt: "ISO-3"},
		SOp{Op: "decpin", Msg: Hex{1, 2, 3}, Pan: "4012345678909", Fmt: "ISO-0"},
		SOp{Op: "dec", Bad: "ct", Text: "xyz", Act: "request"},
		SOp{Op: "enc", Msg: Hex("data"), Bad: "iv", Text: "xyz", Act: "request"},
		SOp{Op: "mac", Msg: Hex("data"), Act: "response", Mac: "hmac"},
		SOp{Op: "mac", Msg: Hex("data"), Act: "request", Mac: "none"},
		SOp{Op: "get", Ik: "unknown"}, SOp{Op: "next", Ik: "unknown"}, SOp{Op: "mac", Msg: Hex("data"), Act: "request", Mac: "cmac", Ik: "unknown"},
	)
	return func(yield func(*SHist) bool) {
		n := gridN(5000, 40000)
		i := 0
		send := func(h *SHist) bool {
			i++
			return !eng.Mine(i) || yield(h)
		}
		start := []SOp{{Op: "create"}, {Op: "create", M: 1}, {Op: "create", M: 2}, {Op: "create", M: 3}}
		for _, op := range ops {
			for m := 0; m < 2; m++ {
				op.M = m
				o := op
				h := SHist{Bases: bases, HTTP: http, Watch: 1, Ops: append([]SOp{}, start...)}
				h.Ops = append(h.Ops, SOp{Op: "burst", M: m, Of: &o, Case: n})
				for _, p := range plainOps[1:] {
					for k := range bases {
						p.M = k
						h.Ops = append(h.Ops, p)
					}
				}
				if !send(&h) {
					return
				}
			}
		}
		// machines that come and go, and everything in turn
		for _, cycle := range [][]SOp{
			{{Op: "create"}, {Op: "delete"}},
			{{Op: "create"}, {Op: "next"}, {Op: "mac", Msg: Hex("data"), Act: "request", Mac: "cmac"}, {Op: "delete"}, {Op: "get"}},
			ops,
		} {
			for m := range bases {
				h := SHist{Bases: bases, HTTP: http, Watch: 1, Ops: append([]SOp{}, start...)}
				for j := 0; j < gridN(1200, 6000)/len(cycle)*2; j++ {
					o := cycle[j%len(cycle)]
					o.M = m
					h.Ops = append(h.Ops, o)
				}
				for k := range bases {
					h.Ops = append(h.Ops, SOp{Op: "get", M: k}, SOp{Op: "next", M: k}, SOp{Op: "list"})
				}
				if !send(&h) {
					return
				}
			}
		}
	}
}
