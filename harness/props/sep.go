package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/bits"
	"strings"

	"verifharness/eng"
	"verifharness/ref"

	"pgregory.net/rapid"
)

// C26. All checks here compare results of the library with each other; the
// reference is used only to lay out clear blocks.

// History collects the transaction keys of several devices and base keys.
type History struct {
	Aes   bool  `json:"aes"`
	Bdks  []Hex `json:"bdks"`
	Ksns  []Hex `json:"ksns"` // one start KSN per device
	Steps int   `json:"steps"`
}

func (g G) flipKey(k Hex, aes bool) Hex {
	r := append(Hex{}, k...)
	b := g.n(8 * len(k))
	if !aes && b%8 == 7 {
		b-- // the rightmost bit of each DES key byte is parity
	}
	r[b/8] ^= 0x80 >> (b % 8)
	return r
}

func effective(k Hex, aes bool) string {
	r := append([]byte{}, k...)
	if !aes {
		for i := range r {
			r[i] &= 0xFE
		}
	}
	return string(r)
}

func drawHistory(t *rapid.T) History {
	g := G{t}
	h := History{Aes: g.bool(), Steps: 1 + g.n(40)}
	n := 16
	if h.Aes {
		n = g.aesLen()
	}
	h.Bdks = []Hex{g.key(n)}
	if g.bool() {
		h.Bdks = append(h.Bdks, g.flipKey(h.Bdks[0], h.Aes))
	}
	var k Hex
	if h.Aes {
		k = g.aesKsn()
		c := ref.AesCounter(k)
		for bits.OnesCount32(c) > 16 || c == 0 {
			c = c>>1 | 1
		}
		k = ref.SetAesCounter(k, c)
	} else {
		k = g.desKsnLen(4 + g.n(7))
		c := ref.DesCounter(k)
		for bits.OnesCount32(c) > 10 || c == 0 {
			c = c>>1 | 1
		}
		k = ref.SetDesCounter(k, c)
	}
	h.Ksns = []Hex{k}
	for m := g.n(3); m > 0; m-- {
		d := append(Hex{}, k...)
		var b int
		if h.Aes {
			b = g.n(64)
		} else {
			b = g.n(8*len(k) - 21)
		}
		d[b/8] ^= 0x80 >> (b % 8)
		h.Ksns = append(h.Ksns, d)
	}
	return h
}

func (h *History) fn(op string) string {
	if h.Aes {
		return "aes." + op
	}
	return "des." + op
}

func checkHistory(r *eng.Rec, h *History) error {
	next := "ksn.desnext"
	if h.Aes {
		next = "ksn.aesnext"
	}
	seen := map[string]string{}
	id := func(b, k Hex) string { return effective(b, h.Aes) + "|" + string(ref.PadKsn(k)) }
	done := map[string]bool{}
	for _, b := range h.Bdks {
		for _, start := range h.Ksns {
			if done[id(b, start)] {
				continue
			}
			done[id(b, start)] = true
			ik := exec(&Call{Fn: h.fn("ik"), Key: b, Ksn: start})
			if ik.Err != nil {
				return fail("initial key fails", "%v", ik.Err)
			}
			if old, ok := seen[string(ik.B)]; ok {
				return fail("initial key repeated", "%x for BDK %x KSN %x and at %s", ik.B, b, start, old)
			}
			seen[string(ik.B)] = fmt.Sprintf("BDK %x KSN %x (initial key)", b, start)
			cur := start
			for i := 0; i <= h.Steps; i++ {
				tk := exec(&Call{Fn: h.fn("tk"), Key: ik.B, Ksn: cur})
				if tk.Err != nil {
					return fail("transaction key fails", "%v", tk.Err)
				}
				where := fmt.Sprintf("BDK %x KSN %x", b, cur)
				if old, ok := seen[string(tk.B)]; ok {
					return fail("transaction key repeated", "%x at %s and at %s", tk.B, old, where)
				}
				seen[string(tk.B)] = where
				r.Eval([]any{b, cur}, true, "transaction key in a history")
				o := exec(&Call{Fn: next, Ksn: cur})
				if o.Err != nil {
					break
				}
				cur = o.B
			}
		}
	}
	return nil
}

// Separation compares uses of one key, and of keys that differ in one bit.
type Separation struct {
	Aes  bool `json:"aes"`
	Bdk  Hex  `json:"bdk"`
	Ksn  Hex  `json:"ksn"`
	Msg  Hex  `json:"msg"`
	IV   Hex  `json:"iv"`
	Pin  Str  `json:"pin"`
	Pan  Str  `json:"pan"`
	Bdk2 Hex  `json:"bdk2"` // one effective bit changed
	Ksn2 Hex  `json:"ksn2"` // one bit changed
	Tk2  int  `json:"tk2"`  // bit of the transaction key to change
}

func drawSeparation(t *rapid.T) Separation {
	g := G{t}
	s := Separation{Aes: g.bool(), Pin: g.pin(), Pan: g.pan(13)}
	n, bs := 16, 8
	if s.Aes {
		n, bs = g.aesLen(), 16
		s.Ksn = g.aesKsn()
	} else {
		s.Ksn = g.desKsnLen(4 + g.n(7))
	}
	s.Bdk = g.key(n)
	s.Bdk2 = g.flipKey(s.Bdk, s.Aes)
	s.Ksn2 = append(Hex{}, s.Ksn...)
	b := g.n(8 * len(s.Ksn))
	s.Ksn2[b/8] ^= 0x80 >> (b % 8)
	s.Tk2 = g.n(8 * n)
	if !s.Aes && s.Tk2%8 == 7 {
		s.Tk2--
	}
	s.IV = g.iv(bs)
	s.Msg = g.msg(bs)
	if len(s.Msg) > 1000 {
		s.Msg = s.Msg[:1000]
	}
	if len(s.Msg) < bs { // so that chance equalities are out of the question
		s.Msg = append(s.Msg, make(Hex, bs-len(s.Msg))...)
	}
	return s
}

type sepKit struct {
	s   *Separation
	err error
}

func (k *sepKit) run(c Call) Out {
	o := exec(&c)
	if o.Err != nil && k.err == nil {
		k.err = fail(c.Fn+" fails", "%v", o.Err)
	}
	return o
}

func (k *sepKit) fn(op string) string {
	if k.s.Aes {
		return "aes." + op
	}
	return "des." + op
}

func (k *sepKit) tk(bdk, ksn Hex) Hex {
	ik := k.run(Call{Fn: k.fn("ik"), Key: bdk, Ksn: ksn})
	if ik.Err != nil {
		return nil
	}
	return k.run(Call{Fn: k.fn("tk"), Key: ik.B, Ksn: ksn}).B
}

func (k *sepKit) mac(tk, ksn Hex, msg Hex, act Str, hmac bool) []byte {
	if !k.s.Aes {
		return k.run(Call{Fn: "des.mac", Key: tk, Msg: msg, Act: act}).B
	}
	fn := "aes.cmac"
	if hmac {
		fn = "aes.hmac"
	}
	return k.run(Call{Fn: fn, Key: tk, Ksn: ksn, Msg: msg, Act: act, Kt: ktOf(len(tk), hmac)}).B
}

func (k *sepKit) enc(tk, ksn, iv, msg Hex, act Str) []byte {
	c := Call{Fn: k.fn("enc"), Key: tk, IV: iv, Msg: msg, Act: act}
	if k.s.Aes {
		c.Ksn, c.Kt = ksn, ktOf(len(tk), false)
	}
	return k.run(c).B
}

func (k *sepKit) dec(tk, ksn, iv, ct Hex, act Str) string {
	c := Call{Fn: k.fn("dec"), Key: tk, IV: iv, Msg: ct, Act: act}
	if k.s.Aes {
		c.Ksn, c.Kt = ksn, ktOf(len(tk), false)
	}
	return k.run(c).S
}

const (
	actReq Str = "request"
	actRes Str = "response"
)

func checkSeparation(r *eng.Rec, s *Separation) error {
	k := &sepKit{s: s}
	tk := k.tk(s.Bdk, s.Ksn)
	if k.err != nil {
		return k.err
	}
	bs := 8
	if s.Aes {
		bs = 16
	}
	macs := []bool{false}
	if s.Aes {
		macs = []bool{false, true}
	}
	eq := func(a, b []byte) bool {
		n := min(len(a), len(b))
		return n >= 8 && bytes.Equal(a[:n], b[:n])
	}
	one := s.Msg[:bs]

	// directions
	for _, h := range macs {
		if a, b := k.mac(tk, s.Ksn, s.Msg, actReq, h), k.mac(tk, s.Ksn, s.Msg, actRes, h); eq(a, b) {
			return fail("request and response MACs equal", "%x", a)
		}
	}
	cq, cs := k.enc(tk, s.Ksn, s.IV, s.Msg, actReq), k.enc(tk, s.Ksn, s.IV, s.Msg, actRes)
	if eq(cq, cs) {
		return fail("request and response ciphertexts equal", "%x", cq)
	}
	want := string(s.Msg)
	for len(want)%bs != 0 {
		want += "\x00"
	}
	if k.dec(tk, s.Ksn, s.IV, cq, actRes) == want || k.dec(tk, s.Ksn, s.IV, cs, actReq) == want {
		return fail("data decrypts in the other direction", "message %x", s.Msg)
	}

	// purposes: one block under zero IV is the bare key applied to it, which
	// is also what the first block of a MAC chain or a PIN block is
	var uses []string
	use := map[string]string{}
	add := func(name string, v []byte) error {
		if len(v) < bs {
			return fail("result too short", "%s: %x", name, v)
		}
		v = v[:bs]
		for _, u := range uses {
			if use[u] == string(v) {
				return fail("two purposes give equal results", "%s and %s: %x", u, name, v)
			}
		}
		uses = append(uses, name)
		use[name] = string(v)
		return nil
	}
	block := one
	if !s.Aes { // the clear PIN block itself
		b, err := ref.Encode8("ISO-0", string(s.Pin), string(s.Pan), nil)
		if err != nil {
			eng.Harness("%v", err)
		}
		block = b
		o := k.run(Call{Fn: "des.encpin", Key: tk, Pin: s.Pin, Pan: s.Pan, Fmt: "ISO-0"})
		if o.Err == nil {
			if err := add("PIN", o.B); err != nil {
				return err
			}
		}
	}
	for _, act := range []Str{actReq, actRes} {
		if err := add("data "+string(act), k.enc(tk, s.Ksn, nil, block, act)); err != nil {
			return err
		}
		for _, h := range macs {
			if err := add(fmt.Sprintf("MAC %s %v", act, h), k.mac(tk, s.Ksn, block, act, h)); err != nil {
				return err
			}
		}
	}
	if k.err != nil {
		return k.err
	}
	if s.Aes { // a PIN block enciphered under the data keys must not open
		clear, err := hex.DecodeString("4" + fmt.Sprintf("%X", len(s.Pin)) + string(s.Pin) + strings.Repeat("A", 14-len(s.Pin)))
		if err != nil {
			eng.Harness("%v", err)
		}
		clear = append(clear, one[:8]...)
		for _, act := range []Str{actReq, actRes} {
			a := k.enc(tk, s.Ksn, nil, clear, act)
			if k.err != nil {
				return k.err
			}
			pb := ref.Iso4Pan(string(s.Pan))
			x := make(Hex, 16)
			for i := range x {
				x[i] = a[i] ^ pb[i]
			}
			ct := k.enc(tk, s.Ksn, nil, x, act)
			o := exec(&Call{Fn: "aes.decpin", Key: tk, Ksn: s.Ksn, Msg: ct, Pan: s.Pan, Kt: ktOf(len(tk), false)})
			if o.Err == nil && o.S == string(s.Pin) {
				return fail("PIN key equals a data key", "action %s", act)
			}
		}
	}

	// other keys
	change := func(what string, tk2, ksn2 Hex) error {
		if k.err != nil {
			return k.err
		}
		for _, act := range []Str{actReq, actRes} {
			for _, h := range macs {
				if a, b := k.mac(tk, s.Ksn, s.Msg, act, h), k.mac(tk2, ksn2, s.Msg, act, h); eq(a, b) {
					return fail("MAC does not depend on the "+what, "%x", a)
				}
			}
			a, b := k.enc(tk, s.Ksn, s.IV, s.Msg, act), k.enc(tk2, ksn2, s.IV, s.Msg, act)
			if eq(a, b) {
				return fail("ciphertext does not depend on the "+what, "%x", a)
			}
			if k.dec(tk2, ksn2, s.IV, a, act) == want {
				return fail("data decrypts under another "+what, "message %x", s.Msg)
			}
			if k.err != nil {
				return k.err
			}
		}
		r.Class("changed " + what)
		return nil
	}
	if err := change("KSN", k.tk(s.Bdk, s.Ksn2), s.Ksn2); err != nil {
		return err
	}
	if err := change("base key", k.tk(s.Bdk2, s.Ksn), s.Ksn); err != nil {
		return err
	}
	tk2 := append(Hex{}, tk...)
	tk2[s.Tk2/8] ^= 0x80 >> (s.Tk2 % 8)
	if err := change("transaction key", tk2, s.Ksn); err != nil {
		return err
	}
	if s.Aes { // the counter and the derivation ID enter the working keys too
		n := append(Hex{}, s.Ksn...)
		b := 32 + s.Tk2%64
		n[b/8] ^= 0x80 >> (b % 8)
		if err := change("KSN of the working key", tk, n); err != nil {
			return err
		}
	}
	r.Eval(s, true, map[bool]string{true: "AES separation", false: "TDES separation"}[s.Aes])
	return k.err
}
