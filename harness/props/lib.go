package props

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	osexec "os/exec"
	"strconv"
	"strings"
	"sync"

	"verifharness/eng"
	"verifharness/ref"

	"pgregory.net/rapid"
)

// ---- classes ----

func counterClass(c uint32, width, max int) string {
	n := bits.OnesCount32(c)
	switch {
	case c == 0:
		return "counter 0"
	case n == 1:
		return "counter with 1 bit"
	case n < max:
		return "counter with 2.." + strconv.Itoa(max-1) + " bits"
	case n == max:
		return "counter with " + strconv.Itoa(max) + " bits"
	}
	return "counter with too many bits"
}

func desKsnClasses(ksn []byte) []string {
	return []string{"ksn of " + strconv.Itoa(len(ksn)) + " bytes", counterClass(ref.DesCounter(ref.PadKsn(ksn)), 21, 10)}
}

func actClass(a Str) string {
	if a == "request" || a == "response" {
		return "action " + string(a)
	}
	return "action other"
}

func lenClass(name string, n, bs int) string {
	switch {
	case n == 0:
		return name + " empty"
	case n < bs:
		return name + " below one block"
	case n == bs:
		return name + " one block"
	case n%bs == 0:
		return name + " whole blocks"
	}
	return name + " partial last block"
}

func ivClass(iv []byte, bs int) string {
	switch {
	case len(iv) == 0:
		return "iv missing"
	case len(iv) < bs:
		return "iv short"
	case len(iv) > bs:
		return "iv long"
	}
	return "iv one block"
}

// ---- TDES ----

func drawDesIK(g G, prev []Call) Call {
	return Call{Fn: "des.ik", Key: g.key(16, keysOf(prev)...), Ksn: g.desKsn(ksnsOf(prev)...)}
}

func drawDesTK(g G, prev []Call) Call {
	return Call{Fn: "des.tk", Key: g.key(16, keysOf(prev)...), Ksn: g.desKsn(ksnsOf(prev)...)}
}

func drawDesPin(g G, prev []Call) Call {
	c := Call{Fn: "des.encpin", Key: g.key(16, keysOf(prev)...), Pin: g.pin(), Pan: g.pan(13, pansOf(prev)...), Fmt: g.format()}
	if g.bool() {
		c.Fn, c.Fill = "des.decpin", Hex(g.bytesN(16))
	}
	return c
}

func drawDesMac(g G, prev []Call) Call {
	c := Call{Fn: "des.mac", Key: g.key(16, keysOf(prev)...), Msg: g.msg(8, msgsOf(prev)...), Act: g.action()}
	if len(c.Msg) == 0 {
		c.Msg = Hex{g.byteVal()}
	}
	return c
}

func blocks(m Hex, bs int) Hex {
	if n := len(m) % bs; n != 0 {
		m = append(append(Hex{}, m...), make(Hex, bs-n)...)
	}
	return m
}

func drawDesData(g G, prev []Call) Call {
	c := Call{Fn: "des.enc", Key: g.key(16, keysOf(prev)...), Msg: g.msg(8, msgsOf(prev)...), IV: g.iv(8), Act: g.action()}
	if g.n(3) == 0 {
		c.Fn, c.Msg = "des.dec", blocks(c.Msg, 8)
	}
	return c
}

// ---- AES ----

func lastAesLen(g G, prev []Call) int {
	if len(prev) > 0 && g.n(3) != 0 {
		if n := len(prev[len(prev)-1].Key); n == 16 || n == 24 || n == 32 {
			return n
		}
	}
	return g.aesLen()
}

func ktOf(n int, hmac bool) Str {
	if hmac {
		return Str("HMAC" + strconv.Itoa(8*n))
	}
	return Str("AES" + strconv.Itoa(8*n))
}

func drawAesIK(g G, prev []Call) Call {
	c := Call{Fn: "aes.ik", Key: g.key(lastAesLen(g, prev), keysOf(prev)...), Ksn: g.aesKsn(ksnsOf(prev)...)}
	if g.one(3) {
		c.Ksn = c.Ksn[:8+g.n(4)]
	}
	return c
}

func drawAesTK(g G, prev []Call) Call {
	return Call{Fn: "aes.tk", Key: g.key(lastAesLen(g, prev), keysOf(prev)...), Ksn: g.aesKsn(ksnsOf(prev)...)}
}

func drawAesPin(g G, prev []Call) Call {
	n := lastAesLen(g, prev)
	c := Call{Fn: "aes.encpin", Key: g.key(n, keysOf(prev)...), Ksn: g.aesKsn(ksnsOf(prev)...), Pin: g.pin(), Pan: g.pan(12, pansOf(prev)...), Kt: ktOf(n, false)}
	if g.bool() {
		c.Fn, c.Fill = "aes.decpin", Hex(g.bytesN(8))
	}
	return c
}

func drawAesMac(g G, prev []Call) Call {
	n := lastAesLen(g, prev)
	h := g.bool()
	c := Call{Fn: "aes.cmac", Key: g.key(n, keysOf(prev)...), Ksn: g.aesKsn(ksnsOf(prev)...), Msg: g.msg(16, msgsOf(prev)...), Act: g.action(), Kt: ktOf(n, h)}
	if h {
		c.Fn = "aes.hmac"
	}
	return c
}

func drawAesData(g G, prev []Call) Call {
	n := lastAesLen(g, prev)
	c := Call{Fn: "aes.enc", Key: g.key(n, keysOf(prev)...), Ksn: g.aesKsn(ksnsOf(prev)...), Msg: g.msg(16, msgsOf(prev)...), IV: g.iv(16), Act: g.action(), Kt: ktOf(n, false)}
	if g.n(3) == 0 {
		c.Fn, c.Msg = "aes.dec", blocks(c.Msg, 16)
	}
	return c
}

// ---- classification of one call ----

func classify(c *Call) (bool, []string) {
	cl := []string{"call " + c.Fn}
	nt := true
	switch c.Fn {
	case "des.ik":
		cl = append(cl, desKsnClasses(c.Ksn)...)
		nt = len(c.Ksn) < 10 || ref.DesCounter(c.Ksn) != 0
	case "des.tk":
		cl = append(cl, desKsnClasses(c.Ksn)...)
		nt = ref.DesCounter(ref.PadKsn(c.Ksn)) != 0
	case "ksn.desnext":
		cl = append(cl, desKsnClasses(c.Ksn)...)
		nt = ref.DesCounter(c.Ksn)&0xF != 0
	case "des.encpin", "des.decpin":
		cl = append(cl, "format "+strings.ToUpper(string(c.Fmt)), "pin of "+strconv.Itoa(len(c.Pin))+" digits", "pan of "+strconv.Itoa(len(c.Pan))+" digits")
	case "des.mac":
		cl = append(cl, actClass(c.Act), lenClass("message", len(c.Msg), 8))
	case "des.enc", "des.dec":
		cl = append(cl, actClass(c.Act), lenClass("message", len(c.Msg), 8), ivClass(c.IV, 8))
		nt = len(c.Msg) > 0
	case "aes.ik":
		cl = append(cl, "bdk of "+strconv.Itoa(len(c.Key))+" bytes", "id of "+strconv.Itoa(len(c.Ksn))+" bytes")
	case "aes.tk":
		cl = append(cl, "key of "+strconv.Itoa(len(c.Key))+" bytes", counterClass(ref.AesCounter(c.Ksn), 32, 16))
		nt = ref.AesCounter(c.Ksn) != 0
	case "ksn.aesnext":
		cl = append(cl, counterClass(ref.AesCounter(c.Ksn), 32, 16))
		nt = ref.AesCounter(c.Ksn)&0xF != 0
	case "aes.encpin", "aes.decpin":
		cl = append(cl, "key type "+string(c.Kt), "pin of "+strconv.Itoa(len(c.Pin))+" digits", "pan of "+strconv.Itoa(len(c.Pan))+" digits")
	case "aes.cmac", "aes.hmac":
		cl = append(cl, "key type "+string(c.Kt), actClass(c.Act), lenClass("message", len(c.Msg), 16))
	case "aes.enc", "aes.dec":
		cl = append(cl, "key type "+string(c.Kt), actClass(c.Act), lenClass("message", len(c.Msg), 16), ivClass(c.IV, 16))
		nt = len(c.Msg) > 0
	}
	return nt, cl
}

func batchGroup(name string, quick, thorough, max int, one func(g G, prev []Call) Call) *eng.Group {
	return eng.Prop(name, 4*quick, thorough,
		func(t *rapid.T) Batch { return drawBatch(G{t}, max, one) },
		func(r *eng.Rec, b *Batch) error { return checkBatch(r, b, classify) })
}

// enumBatch enumerates calls; each is checked alone (with its inverse).
func enumBatch(name string, calls func(yield func(Call) bool)) *eng.Group {
	return eng.Enum(name,
		func(yield func(*Batch) bool) {
			i := 0
			calls(func(c Call) bool {
				i++
				if !eng.Mine(i) {
					return true
				}
				return yield(&Batch{Calls: []Call{c}})
			})
		},
		func(r *eng.Rec, b *Batch) error { return checkBatch(r, b, classify) })
}

func mixer(label string) *prng {
	s := eng.Cfg.Seed
	for _, c := range label {
		s = s*1099511628211 + uint64(c)
	}
	p := &prng{s}
	p.next()
	return p
}

// ---- sweeps over counters ----

// Sweep is a block of counter values checked against one key tree.
type Sweep struct {
	Key  Hex    `json:"key,omitzero"`
	Ksn  Hex    `json:"ksn"`
	From uint32 `json:"from"`
	To   uint32 `json:"to"` // exclusive; 0 means 2^32
	At   *int64 `json:"at,omitempty"`
}

const desMax = 1 << 21

// desTKSweep compares the transaction keys of every counter in the block with
// a depth-first walk of the reference key tree (one step per counter, keyed by
// the counter without its lowest set bit).
func desTKSweep(r *eng.Rec, s *Sweep) error {
	path := map[uint32][]byte{0: s.Key}
	var keyOf func(c uint32) []byte
	keyOf = func(c uint32) []byte {
		if k, ok := path[c]; ok {
			return k
		}
		k := ref.DesStep(s.Ksn, c, keyOf(c&(c-1)))
		path[c] = k
		return k
	}
	n := int64(0)
	for c := s.From; c < s.To; c++ {
		ksn := Hex(ref.SetDesCounter(s.Ksn, c))
		want := keyOf(c)
		o := exec(&Call{Fn: "des.tk", Key: s.Key, Ksn: ksn})
		if err := wantBytes(&Call{Fn: "des.tk"}, o, want); err != nil {
			at := int64(c)
			s.At, s.From, s.To = &at, c, c+1
			return fail("des.tk in the sweep of all counters", "counter %06x: %v", c, err)
		}
		if c&1 == 1 {
			delete(path, c) // leaf
		}
		n++
	}
	r.EvalRange(n, n)
	return nil
}

// nextSweep compares the successor of every counter in the block; the
// reference successor is found once by scanning downward, without arithmetic
// shared with the code.
func nextSweep(fn string, width, max int) func(r *eng.Rec, s *Sweep) error {
	return func(r *eng.Rec, s *Sweep) error {
		limit := uint64(1) << width
		to := uint64(s.To)
		if to == 0 {
			to = limit
		}
		set, length := ref.SetDesCounter, len(s.Ksn)
		if fn == "ksn.aesnext" {
			set = ref.SetAesCounter
		}
		next, ok := ref.NextCounter(to-1, width, max)
		n := int64(0)
		for c := to; c > uint64(s.From); {
			c--
			o := exec(&Call{Fn: fn, Ksn: set(s.Ksn, uint32(c))})
			bad := ""
			switch {
			case eng.IsPanic(o.Err):
				bad = o.Err.Error()
			case !ok && o.Err == nil:
				bad = "got " + o.String() + " instead of an error"
			case ok && o.Err != nil:
				bad = o.Err.Error()
			case ok:
				want := set(s.Ksn, uint32(next))
				if len(o.B) != length || string(o.B) != string(want) {
					bad = "got " + o.String() + " want " + Out{B: want}.String()
				}
			}
			if bad != "" {
				at := int64(c)
				s.At, s.From, s.To = &at, uint32(c), uint32((c+1)%(1<<32))
				return fail(fn+" in the sweep of counters", "counter %x: %s", c, bad)
			}
			if bits.OnesCount64(c) <= max {
				next, ok = c, true
			}
			n++
		}
		r.EvalRange(n, n)
		return nil
	}
}

func sweepGroup(name string, blocks func(yield func(*Sweep) bool), check func(*eng.Rec, *Sweep) error) *eng.Group {
	return eng.Enum(name, func(yield func(*Sweep) bool) {
		i := 0
		blocks(func(s *Sweep) bool {
			i++
			if !eng.Mine(i) {
				return true
			}
			return yield(s)
		})
	}, check)
}

func desKsnOf(p *prng, n int) Hex { return ref.SetDesCounter(p.bytes(n), 0) }

// desTKBlocks: quick takes a quarter of the space, picked by the seed, and
// thorough all of it for several keys.
func desTKBlocks(yield func(*Sweep) bool) {
	const blk = 1 << 13
	p := mixer("destk")
	for rep := 0; rep < 4; rep++ {
		key, ksn := Hex(p.bytes(16)), desKsnOf(p, []int{10, 8, 10, 5}[rep])
		phase := uint32(p.n(8))
		for i := uint32(0); i < desMax/blk; i++ {
			if eng.Quick() && (i+phase)%4 != 0 {
				continue
			}
			if !yield(&Sweep{Key: key, Ksn: ksn, From: i * blk, To: (i + 1) * blk}) {
				return
			}
		}
		if eng.Quick() {
			return
		}
	}
}

func desNextBlocks(yield func(*Sweep) bool) {
	const blk = 1 << 16
	p := mixer("desnext")
	lens := []int{10, 4}
	if !eng.Quick() {
		lens = []int{10, 4, 5, 6, 7, 8, 9}
	}
	for _, n := range lens {
		ksn := desKsnOf(p, n)
		for i := uint32(0); i < desMax/blk; i++ {
			if !yield(&Sweep{Ksn: ksn, From: i * blk, To: (i + 1) * blk}) {
				return
			}
		}
	}
}

// aesNextBlocks: blocks around every power of two, at both ends of the space
// and at pseudo-random places; thorough covers much more (the last 2^28
// counters and a share of the rest).
func aesNextBlocks(yield func(*Sweep) bool) {
	p := mixer("aesnext")
	ksn := Hex(ref.SetAesCounter(p.bytes(12), 0))
	blk := uint64(1) << 12
	extra := 64
	if !eng.Quick() {
		blk, extra = 1<<18, 2000
	}
	emit := func(mid uint64) bool {
		from := uint64(0)
		if mid > blk/2 {
			from = mid - blk/2
		}
		to := from + blk
		if to > 1<<32 {
			to = 1 << 32
		}
		return yield(&Sweep{Ksn: ksn, From: uint32(from), To: uint32(to)}) // 2^32 wraps to 0
	}
	for b := 0; b <= 32; b++ {
		if !emit(uint64(1) << b) {
			return
		}
	}
	for k := 1; k <= 16; k++ { // just above the largest valid counters of a prefix
		if !emit(0xFFFF0000 - uint64(1)<<(16+k-1) + uint64(1)<<15) {
			return
		}
	}
	if !emit(0xFFFF0000) {
		return
	}
	for i := 0; i < extra; i++ {
		if !emit(p.next() >> 32) {
			return
		}
	}
}

// ---- walks: histories of advances ----

// Walk advances one KSN step by step.
type Walk struct {
	Fn    string `json:"fn"`
	Ksn   Hex    `json:"ksn"`
	Steps int    `json:"steps"`
}

func drawWalk(fn string) func(t *rapid.T) Walk {
	return func(t *rapid.T) Walk {
		g := G{t}
		w := Walk{Fn: fn, Steps: 1 + g.n(60)}
		if fn == "ksn.desnext" {
			w.Ksn = g.desKsn()
		} else {
			w.Ksn = g.aesKsn()
		}
		return w
	}
}

func checkWalk(r *eng.Rec, w *Walk) error {
	cur := append(Hex{}, w.Ksn...)
	seen := map[string]bool{}
	read, valid := "ksn.destc", 10
	if w.Fn == "ksn.aesnext" {
		read, valid = "ksn.aestc", 16
	}
	for i := 0; i < w.Steps; i++ {
		c := Call{Fn: w.Fn, Ksn: cur}
		for _, fn := range []string{read, w.Fn} {
			c.Fn = fn
			o := exec(&c)
			if err := verify(&c, o); err != nil {
				return fail("step of an advance history", "step %d from %x: %v", i, cur, err)
			}
			nt, cl := classify(&c)
			r.Eval(c, nt, cl...)
			if fn == read {
				continue
			}
			if o.Err != nil {
				return nil // exhausted, as verified
			}
			if seen[string(o.B)] {
				return fail("KSN reused", "step %d: %x", i, o.B)
			}
			seen[string(o.B)] = true
			if fn == "ksn.aesnext" {
				v := Call{Fn: "ksn.aesvalid", Ksn: o.B}
				if err := verify(&v, exec(&v)); err != nil {
					return err
				}
				if bits.OnesCount32(ref.AesCounter(o.B)) > valid {
					return fail("invalid counter", "%x", o.B)
				}
			}
			cur = o.B
		}
	}
	return nil
}

func drawKsnCall(aes bool) func(g G, prev []Call) Call {
	return func(g G, prev []Call) Call {
		if aes {
			return Call{Fn: pick(g, "ksn.aesnext", "ksn.aesnext", "ksn.aestc", "ksn.aesvalid"), Ksn: g.aesKsn(ksnsOf(prev)...)}
		}
		return Call{Fn: pick(g, "ksn.desnext", "ksn.desnext", "ksn.destc"), Ksn: g.desKsn(ksnsOf(prev)...)}
	}
}

// ---- grids ----

func gridN(quick, thorough int) int {
	if eng.Quick() {
		return quick
	}
	return thorough
}

// pinGrid covers format x PIN length x PAN length for encryption and for
// decryption of reference blocks.
func pinGrid(yield func(Call) bool) {
	p := mixer("pingrid")
	for rep := 0; rep < gridN(1, 12); rep++ {
		for _, f := range Formats {
			for pl := 4; pl <= 12; pl++ {
				for al := 13; al <= 19; al++ {
					c := Call{Fn: "des.encpin", Key: p.bytes(16), Pin: Str(p.digits(pl)), Pan: Str(p.digits(al)), Fmt: Str(f)}
					if rep%2 == 1 {
						c.Fmt = Str(strings.ToLower(f))
					}
					if !yield(c) {
						return
					}
					c.Fn, c.Fill = "des.decpin", p.bytes(16)
					if !yield(c) {
						return
					}
				}
			}
		}
	}
}

func aesPinGrid(yield func(Call) bool) {
	p := mixer("aespingrid")
	for rep := 0; rep < gridN(2, 24); rep++ {
		for _, n := range []int{16, 24, 32} {
			for pl := 4; pl <= 12; pl++ {
				for al := 12; al <= 19; al++ {
					c := Call{Fn: "aes.encpin", Key: p.bytes(n), Ksn: p.bytes(12), Pin: Str(p.digits(pl)), Pan: Str(p.digits(al)), Kt: ktOf(n, false)}
					if !yield(c) {
						return
					}
					c.Fn, c.Fill = "aes.decpin", p.bytes(8)
					if !yield(c) {
						return
					}
				}
			}
		}
	}
}

// lenGrid covers every message length for every function, key length and
// action.
func lenGrid(fns []string, quick, thorough int) func(yield func(Call) bool) {
	return func(yield func(Call) bool) {
		p := mixer("lengrid" + fns[0])
		for n := 0; n <= gridN(quick, thorough); n++ {
			for _, fn := range fns {
				for _, act := range []Str{"request", "response", "other"} {
					kl := 16
					if fn[:3] == "aes" {
						kl = []int{16, 24, 32}[p.n(3)]
					}
					m := n
					switch {
					case fn == "des.dec":
						m = n &^ 7
					case fn == "aes.dec":
						m = n &^ 15
					case fn == "des.mac" && n == 0:
						continue
					}
					c := Call{Fn: fn, Key: p.bytes(kl), Msg: p.bytes(m), Act: act}
					if fn[:3] == "aes" {
						c.Ksn, c.Kt = p.bytes(12), ktOf(kl, fn == "aes.hmac")
					}
					if strings.HasSuffix(fn, "enc") || strings.HasSuffix(fn, "dec") {
						c.IV = p.bytes(p.n(36))
					}
					if !yield(c) {
						return
					}
				}
			}
		}
	}
}

// aesTreeGrid: every counter with one or two bits, runs of ones, and (thorough)
// three bits.
func aesTreeGrid(yield func(Call) bool) {
	p := mixer("aestree")
	for _, n := range []int{16, 24, 32} {
		key, id := Hex(p.bytes(n)), p.bytes(12)
		emit := func(c uint32) bool {
			return yield(Call{Fn: "aes.tk", Key: key, Ksn: ref.SetAesCounter(id, c)})
		}
		for a := 0; a < 32; a++ {
			for b := 0; b <= a; b++ {
				if !emit(1<<a|1<<b) || !emit(uint32((uint64(1)<<(a-b+1)-1)<<b)) || !emit(^uint32(uint64(1)<<a|1<<b)) {
					return
				}
				if eng.Quick() {
					continue
				}
				for c := 0; c <= b; c++ {
					for d := 0; d <= c; d++ {
						if !emit(1<<a | 1<<b | 1<<c | 1<<d) {
							return
						}
					}
				}
			}
		}
		for c := uint32(0); c < uint32(gridN(512, 1<<16)); c++ {
			if !emit(c) {
				return
			}
		}
	}
}

// idGrid: initial key IDs and KSNs that differ in one byte or bit.
func idGrid(yield func(Call) bool) {
	p := mixer("idgrid")
	for rep := 0; rep < gridN(2, 40); rep++ {
		for _, n := range []int{16, 24, 32} {
			key, id := Hex(p.bytes(n)), p.bytes(12)
			for b := 0; b < 96; b++ {
				k := append(Hex{}, id...)
				k[b/8] ^= 0x80 >> (b % 8)
				if !yield(Call{Fn: "aes.ik", Key: key, Ksn: k}) {
					return
				}
			}
			for b := 0; b < 8*n; b++ {
				k := append(Hex{}, key...)
				k[b/8] ^= 0x80 >> (b % 8)
				if !yield(Call{Fn: "aes.ik", Key: k, Ksn: id}) {
					return
				}
			}
		}
	}
}

func desIdGrid(yield func(Call) bool) {
	p := mixer("desidgrid")
	for rep := 0; rep < gridN(2, 60); rep++ {
		for n := 4; n <= 10; n++ {
			key, id := Hex(p.bytes(16)), p.bytes(n)
			for b := 0; b < 8*n; b++ {
				k := append(Hex{}, id...)
				k[b/8] ^= 0x80 >> (b % 8)
				if !yield(Call{Fn: "des.ik", Key: key, Ksn: k}) {
					return
				}
			}
			for b := 0; b < 128; b++ {
				k := append(Hex{}, key...)
				k[b/8] ^= 0x80 >> (b % 8)
				if !yield(Call{Fn: "des.ik", Key: k, Ksn: id}) {
					return
				}
			}
		}
	}
}

// ---- C08 freshness of the random field ----

// Fresh repeats AES PIN encryptions, one or several in turn.
type Fresh struct {
	Calls []Call `json:"calls"`
	N     int    `json:"n"`
	Conc  bool   `json:"conc,omitempty"`  // at the same time
	Procs bool   `json:"procs,omitempty"` // in several processes
}

func checkFresh(r *eng.Rec, f *Fresh) error {
	outs := make([]Out, f.N)
	call := func(i int) *Call { return &f.Calls[i%len(f.Calls)] }
	switch {
	case f.Procs:
		exe, err := os.Executable()
		if err != nil {
			eng.Harness("%v", err)
		}
		for i := range outs {
			c, _ := json.Marshal(call(i))
			cmd := osexec.Command(exe)
			cmd.Env = append(os.Environ(), "VH_MODE=call", "VH_CALL="+string(c))
			b, err := cmd.Output()
			if err != nil {
				eng.Harness("process of one call: %v", err)
			}
			h, err := hex.DecodeString(string(b))
			if err != nil {
				return fail("call in a process", "got %q", clip(string(b)))
			}
			outs[i] = Out{B: h}
		}
	case f.Conc:
		var wg sync.WaitGroup
		for i := range outs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[i] = exec(call(i))
			}()
		}
		wg.Wait()
	default:
		for i := range outs {
			outs[i] = exec(call(i))
		}
	}
	seen := map[string]int{}
	var vals [8]map[byte]bool
	for i, o := range outs {
		c := call(i)
		if err := verify(c, o); err != nil {
			return err
		}
		_, rnd, err := ref.Iso4Open(ref.AesWorking(c.Key, c.Ksn, ref.UsePin, len(c.Key), false), o.B, string(c.Pan))
		if err != nil {
			return err
		}
		if j, ok := seen[string(rnd)]; ok {
			return fail("repeated random field", "encryption %d repeats the random field %x of encryption %d", i, rnd, j)
		}
		seen[string(rnd)] = i
		for k, b := range rnd {
			if vals[k] == nil {
				vals[k] = map[byte]bool{}
			}
			vals[k][b] = true
		}
	}
	for k, v := range vals {
		if f.N >= 32 && len(v) < 4 { // of 256, by accident in far less than 2^-100 cases
			return fail("random field is not random", "byte %d of the field takes %d values in %d encryptions", k, len(v), f.N)
		}
	}
	r.Eval(f, true, "repeated encryptions")
	return nil
}

// OneCall executes the call of the environment for another process.
func OneCall() {
	var c Call
	if err := json.Unmarshal([]byte(os.Getenv("VH_CALL")), &c); err != nil {
		eng.Die("%v", err)
	}
	o := exec(&c)
	if o.Err != nil {
		fmt.Print("error: ", o.Err)
		return
	}
	fmt.Print(hex.EncodeToString(o.B))
}

func drawFresh(t *rapid.T) Fresh {
	g := G{t}
	f := Fresh{N: 2 + g.n(10), Conc: g.n(4) == 0}
	if g.n(4) == 0 {
		f.N = 32 + g.n(40)
		if g.n(12) == 11 {
			f.N *= 20
		}
	}
	for n := 1 + g.n(3)*g.n(2); n > 0; n-- {
		c := drawAesPin(g, f.Calls)
		c.Fn, c.Fill = "aes.encpin", nil
		f.Calls = append(f.Calls, c)
	}
	return f
}

func freshGroups() []*eng.Group {
	return []*eng.Group{
		eng.Prop("fresh", 1000, 20000, drawFresh, checkFresh),
		eng.Prop("fresh processes", 60, 600, func(t *rapid.T) Fresh {
			f := drawFresh(t)
			f.N, f.Conc, f.Procs = 2+f.N%3, false, true
			return f
		}, checkFresh),
	}
}

func libProps() []*eng.Property {
	return []*eng.Property{
		{ID: "C01", Rule: "one case is one initial key derivation; non-trivial when the KSN has counter bits to clear or needs FF padding", Groups: []*eng.Group{
			batchGroup("calls", 60000, 2000000, 6, drawDesIK),
			enumBatch("one-bit changes", desIdGrid),
		}},
		{ID: "C02", Rule: "one case is one transaction key derivation; non-trivial when the counter is not zero", Groups: []*eng.Group{
			batchGroup("calls", 40000, 1000000, 6, drawDesTK),
			sweepGroup("sweep", desTKBlocks, desTKSweep),
		}},
		{ID: "C03", Rule: "one case is one PIN encryption (opened by the reference and decrypted by the library) or one decryption of a reference-made block; all are non-trivial", Groups: []*eng.Group{
			batchGroup("calls", 100000, 2500000, 6, drawDesPin),
			enumBatch("formats x lengths", pinGrid),
		}},
		{ID: "C04", Rule: "one case is one MAC of a non-empty message compared with the reference; all are non-trivial", Groups: []*eng.Group{
			batchGroup("calls", 80000, 1600000, 5, drawDesMac),
			enumBatch("lengths", lenGrid([]string{"des.mac"}, 1100, 9000)),
			enumBatch("actions", actionGrid("des.mac")),
			enumBatch("texts", textGrid("des.mac")),
			enumBatch("long", longGrid("des.mac")),
		}},
		{ID: "C05", Rule: "one case is one encryption (also decrypted by the library) or decryption compared with the reference; non-trivial when the message is not empty", Groups: []*eng.Group{
			batchGroup("calls", 40000, 800000, 5, drawDesData),
			enumBatch("lengths", lenGrid([]string{"des.enc", "des.dec"}, 700, 6000)),
			enumBatch("actions", actionGrid("des.enc", "des.dec")),
			enumBatch("texts", textGrid("des.enc", "des.dec")),
			enumBatch("long", longGrid("des.enc", "des.dec")),
		}},
		{ID: "C06", Rule: "one case is one initial key derivation compared with the reference; all are non-trivial", Groups: []*eng.Group{
			batchGroup("calls", 80000, 2000000, 6, drawAesIK),
			enumBatch("one-bit changes", idGrid),
		}},
		{ID: "C07", Rule: "one case is one transaction key derivation; non-trivial when the counter is not zero", Groups: []*eng.Group{
			batchGroup("calls", 60000, 1500000, 6, drawAesTK),
			enumBatch("counters", aesTreeGrid),
		}},
		{ID: "C08", Rule: "one case is one PIN encryption (opened by the reference and decrypted by the library), one decryption of a reference-made block, or one group of repeated encryptions; all are non-trivial", Groups: []*eng.Group{
			batchGroup("calls", 50000, 1200000, 6, drawAesPin),
			enumBatch("types x lengths", aesPinGrid),
			freshGroups()[0], freshGroups()[1],
		}},
		{ID: "C09", Rule: "one case is one MAC compared with the reference; all are non-trivial", Groups: []*eng.Group{
			batchGroup("calls", 60000, 1200000, 5, drawAesMac),
			enumBatch("lengths", lenGrid([]string{"aes.cmac", "aes.hmac"}, 1100, 9000)),
			enumBatch("actions", actionGrid("aes.cmac", "aes.hmac")),
			enumBatch("texts", textGrid("aes.cmac", "aes.hmac")),
			enumBatch("long", longGrid("aes.cmac", "aes.hmac")),
		}},
		{ID: "C10", Rule: "one case is one encryption (also decrypted by the library) or decryption compared with the reference; non-trivial when the message is not empty", Groups: []*eng.Group{
			batchGroup("calls", 50000, 1000000, 5, drawAesData),
			enumBatch("lengths", lenGrid([]string{"aes.enc", "aes.dec"}, 900, 7000)),
			enumBatch("actions", actionGrid("aes.enc", "aes.dec")),
			enumBatch("texts", textGrid("aes.enc", "aes.dec")),
			enumBatch("long", longGrid("aes.enc", "aes.dec")),
		}},
		{ID: "C11", Rule: "one case is one advance or counter reading; non-trivial when the counter is not a multiple of 16 (so a carry or a skip is near) or it belongs to the sweep of all 2^21 counters", Groups: []*eng.Group{
			batchGroup("calls", 120000, 2000000, 6, drawKsnCall(false)),
			eng.Prop("walks", 16000, 400000, drawWalk("ksn.desnext"), checkWalk),
			sweepGroup("sweep", desNextBlocks, nextSweep("ksn.desnext", 21, 10)),
		}},
		{ID: "C12", Rule: "one case is one advance, counter reading or validity test; non-trivial when the counter is not a multiple of 16 (so a carry or a skip is near) or it belongs to a swept block", Groups: []*eng.Group{
			batchGroup("calls", 120000, 2000000, 6, drawKsnCall(true)),
			eng.Prop("walks", 16000, 400000, drawWalk("ksn.aesnext"), checkWalk),
			sweepGroup("sweep", aesNextBlocks, nextSweep("ksn.aesnext", 32, 16)),
		}},
	}
}
