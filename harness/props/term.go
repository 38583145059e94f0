package props

import (
	"bytes"
	"math/bits"
	"strings"

	"verifharness/eng"
	"verifharness/ref"

	"pgregory.net/rapid"
)

// Life is a stretch of a terminal's life.
type Life struct {
	Aes   bool  `json:"aes"`
	Bdk   Hex   `json:"bdk"`
	Ksn   Hex   `json:"ksn"` // counter bits: where the stretch starts (0: key injection)
	Txs   []Tx  `json:"txs"`
	Whole int   `json:"whole,omitempty"` // run to the end of life, comparing the key of every Whole-th transaction
	Until int64 `json:"until,omitempty"`
}

// Tx is what the terminal sends in one transaction.
type Tx struct {
	Pin  Str  `json:"pin,omitempty"`
	Pan  Str  `json:"pan,omitempty"`
	Fmt  Str  `json:"fmt,omitempty"`
	Data Hex  `json:"data,omitzero"`
	IV   Hex  `json:"iv,omitzero"`
	Resp bool `json:"resp,omitempty"`
	Hmac bool `json:"hmac,omitempty"`
	Fill Hex  `json:"fill,omitzero"`
}

func drawLife(t *rapid.T) Life {
	g := G{t}
	l := Life{Aes: g.bool()}
	if l.Aes {
		l.Bdk, l.Ksn = g.bytesN(g.aesLen()), g.aesKsn()
		c := ref.AesCounter(l.Ksn)
		for bits.OnesCount32(c) > 16 {
			c &= c - 1
		}
		l.Ksn = ref.SetAesCounter(l.Ksn, c)
	} else {
		l.Bdk, l.Ksn = g.bytesN(16), g.desKsnLen(10)
		c := ref.DesCounter(l.Ksn)
		for bits.OnesCount32(c) > 10 {
			c &= c - 1
		}
		l.Ksn = ref.SetDesCounter(l.Ksn, c)
	}
	for n := 1 + g.n(25); n > 0; n-- {
		x := Tx{Resp: g.bool(), Hmac: g.bool(), Fill: Hex(g.ubytes(16))}
		if g.bool() {
			x.Pin, x.Pan, x.Fmt = g.pin(), g.pan(13), g.format()
		}
		bs := 8
		if l.Aes {
			bs = 16
		}
		if g.bool() {
			x.Data, x.IV = g.msg(bs), g.iv(bs)
			if len(x.Data) > 300 {
				x.Data = x.Data[:300]
			}
		}
		l.Txs = append(l.Txs, x)
	}
	return l
}

type host struct {
	aes bool
	bdk Hex
}

func (h host) fn(op string) string {
	if h.aes {
		return "aes." + op
	}
	return "des." + op
}

// tk derives from BDK and KSN alone.
func (h host) tk(ksn Hex) (Hex, error) {
	ik := exec(&Call{Fn: h.fn("ik"), Key: h.bdk, Ksn: ksn})
	if ik.Err != nil {
		return nil, fail("host initial key", "%v", ik.Err)
	}
	tk := exec(&Call{Fn: h.fn("tk"), Key: ik.B, Ksn: ksn})
	if tk.Err != nil {
		return nil, fail("host transaction key", "%v", tk.Err)
	}
	return tk.B, nil
}

func (h host) next(ksn Hex) (Hex, error) {
	fn := "ksn.desnext"
	if h.aes {
		fn = "ksn.aesnext"
	}
	o := exec(&Call{Fn: fn, Ksn: ksn})
	if eng.IsPanic(o.Err) {
		return nil, o.Err
	}
	return o.B, o.Err
}

func act(resp bool) Str {
	if resp {
		return actRes
	}
	return actReq
}

// process is the host's side of a transaction.
func (h host) process(x *Tx, tk, termKey, ksn Hex) error {
	if x.Pin != "" {
		if h.aes {
			ct := ref.Iso4Encode(ref.AesWorking(termKey, ksn, ref.UsePin, len(termKey), false), string(x.Pin), string(x.Pan), x.Fill)
			o := exec(&Call{Fn: "aes.decpin", Key: tk, Ksn: ksn, Msg: ct, Pan: x.Pan, Kt: ktOf(len(tk), false)})
			if err := wantStr(&Call{Fn: "aes.decpin"}, o, string(x.Pin)); err != nil {
				return fail("host does not recover the PIN", "KSN %x: %v", ksn, err)
			}
		} else {
			f := strings.ToUpper(string(x.Fmt))
			blk, err := ref.Encode8(f, string(x.Pin), string(x.Pan), x.Fill)
			if err != nil {
				eng.Harness("%v", err)
			}
			o := exec(&Call{Fn: "des.decpin", Key: tk, Msg: ref.TdesEnc(ref.DesPinKey(termKey), blk), Pan: x.Pan, Fmt: x.Fmt})
			if err := wantStr(&Call{Fn: "des.decpin"}, o, ref.Carried(f, string(x.Pin))); err != nil {
				return fail("host does not recover the PIN", "KSN %x: %v", ksn, err)
			}
		}
	}
	if len(x.Data) > 0 {
		if h.aes {
			ct := ref.AesEncData(termKey, ksn, x.IV, x.Data, x.Resp)
			o := exec(&Call{Fn: "aes.dec", Key: tk, Ksn: ksn, Msg: ct, IV: x.IV, Kt: ktOf(len(tk), false), Act: act(x.Resp)})
			if o.Err != nil || strings.TrimRight(o.S, "\x00") != strings.TrimRight(string(x.Data), "\x00") || len(o.S) != len(ct) {
				return fail("host does not recover the data", "KSN %x: %v", ksn, o)
			}
			c := Call{Fn: "aes.cmac", Key: tk, Ksn: ksn, Msg: x.Data, Kt: ktOf(len(tk), x.Hmac), Act: act(x.Resp)}
			want := ref.AesCmac(termKey, ksn, x.Data, x.Resp)
			if x.Hmac {
				c.Fn, want = "aes.hmac", ref.AesHmac(termKey, ksn, x.Data, x.Resp)
			}
			if err := wantBytes(&c, exec(&c), want); err != nil {
				return fail("host does not verify the MAC", "KSN %x: %v", ksn, err)
			}
		} else {
			ct := ref.DesEncData(termKey, x.IV, x.Data, x.Resp)
			o := exec(&Call{Fn: "des.dec", Key: tk, Msg: ct, IV: x.IV, Act: act(x.Resp)})
			if o.Err != nil || strings.TrimRight(o.S, "\x00") != strings.TrimRight(string(x.Data), "\x00") || len(o.S) != len(ct) {
				return fail("host does not recover the data", "KSN %x: %v", ksn, o)
			}
			c := Call{Fn: "des.mac", Key: tk, Msg: x.Data, Act: act(x.Resp)}
			if err := wantBytes(&c, exec(&c), ref.DesMac(termKey, x.Data, x.Resp)); err != nil {
				return fail("host does not verify the MAC", "KSN %x: %v", ksn, err)
			}
		}
	}
	return nil
}

func checkLife(r *eng.Rec, l *Life) error {
	h := host{l.Aes, l.Bdk}
	ik := exec(&Call{Fn: h.fn("ik"), Key: l.Bdk, Ksn: l.Ksn})
	if ik.Err != nil {
		return fail("initial key fails", "%v", ik.Err)
	}
	c := uint64(ref.DesCounter(l.Ksn))
	if l.Aes {
		c = uint64(ref.AesCounter(l.Ksn))
	}
	var t *ref.Terminal
	cur := l.Ksn
	if c == 0 {
		t = ref.NewTerminal(l.Aes, ik.B, l.Ksn)
		n, err := h.next(cur) // the KSN injected has counter 0; the first transaction uses 1
		if err != nil {
			return fail("host cannot advance", "%x: %v", cur, err)
		}
		cur = n
	} else {
		t = ref.Seek(l.Aes, ik.B, l.Ksn, c)
	}
	for i := range l.Txs {
		if !bytes.Equal(cur, t.KSN()) {
			l.Txs = l.Txs[:i+1]
			return fail("KSN sequences differ", "transaction %d: host %x terminal %x", i, cur, t.KSN())
		}
		tk, err := h.tk(cur)
		if err != nil {
			return err
		}
		if !bytes.Equal(tk, t.Key()) {
			l.Txs = l.Txs[:i+1]
			return fail("transaction keys differ", "transaction %d, KSN %x: host %x terminal %x", i, cur, tk, t.Key())
		}
		if err := h.process(&l.Txs[i], tk, t.Key(), cur); err != nil {
			l.Txs = l.Txs[:i+1]
			return err
		}
		alg := "TDES"
		if l.Aes {
			alg = "AES"
		}
		r.Eval([]any{l.Bdk, Hex(cur), l.Txs[i]}, true, alg+" transaction")
		t.Done()
		n, err := h.next(cur)
		if t.Dead() {
			r.Class("end of life reached")
			if err == nil {
				return fail("host goes on after the end of life", "%x -> %x", cur, n)
			}
			if eng.IsPanic(err) {
				return err
			}
			return nil
		}
		if err != nil {
			l.Txs = l.Txs[:i+1]
			return fail("host cannot advance", "%x: %v (terminal is at %x)", cur, err, t.KSN())
		}
		cur = n
	}
	return nil
}

// wholeLife runs every transaction of a stretch (for TDES: of the whole life).
func checkWhole(r *eng.Rec, l *Life) error {
	h := host{l.Aes, l.Bdk}
	ik := exec(&Call{Fn: h.fn("ik"), Key: l.Bdk, Ksn: l.Ksn})
	if ik.Err != nil {
		return fail("initial key fails", "%v", ik.Err)
	}
	ctr := func(k []byte) uint64 {
		if l.Aes {
			return uint64(ref.AesCounter(k))
		}
		return uint64(ref.DesCounter(k))
	}
	t := ref.NewTerminal(l.Aes, ik.B, l.Ksn)
	cur := l.Ksn
	if c := ctr(l.Ksn); c != 0 {
		t = ref.Seek(l.Aes, ik.B, l.Ksn, c)
	} else {
		n, err := h.next(cur)
		if err != nil {
			return fail("host cannot advance", "%x: %v", cur, err)
		}
		cur = n
	}
	n := int64(0)
	keys := int64(0)
	for {
		if !bytes.Equal(cur, t.KSN()) {
			return fail("KSN sequences differ", "transaction %d: host %x terminal %x", n, cur, t.KSN())
		}
		if n%int64(l.Whole) == 0 {
			o := exec(&Call{Fn: h.fn("tk"), Key: ik.B, Ksn: cur})
			if o.Err != nil || !bytes.Equal(o.B, t.Key()) {
				return fail("transaction keys differ", "transaction %d, KSN %x: host %v terminal %x", n, cur, o, t.Key())
			}
			keys++
		}
		n++
		t.Done()
		nx, err := h.next(cur)
		if t.Dead() {
			if err == nil {
				return fail("host goes on after the end of life", "%x -> %x", cur, nx)
			}
			r.Class("end of life reached")
			break
		}
		if err != nil {
			return fail("host cannot advance", "%x: %v (terminal is at %x)", cur, err, t.KSN())
		}
		cur = nx
		if l.Until > 0 && ctr(cur) >= uint64(l.Until) {
			break
		}
	}
	r.EvalRange(n, keys)
	r.ClassN("transactions of whole stretches", n)
	r.Sample(l)
	return nil
}

func wholeGroup() *eng.Group {
	return eng.Enum("whole life", func(yield func(*Life) bool) {
		p := mixer("life")
		i := 0
		emit := func(l *Life) bool {
			i++
			return !eng.Mine(i) || yield(l)
		}
		every := gridN(24, 1)
		ksn, bdk := ref.SetDesCounter(p.bytes(10), 0), p.bytes(16)
		// the TDES life in 32 stretches, each started as the terminal would be there
		for s := uint32(0); s < 32; s++ {
			from := s << 16
			if bits.OnesCount32(from) > 10 {
				continue
			}
			if !emit(&Life{Bdk: bdk, Ksn: ref.SetDesCounter(ksn, from), Whole: every, Until: int64(s+1) << 16}) {
				return
			}
		}
		for _, n := range []int{16, 24, 32} {
			ksn, bdk := p.bytes(12), p.bytes(n)
			for s := 0; s < gridN(6, 60); s++ {
				from := uint32(p.next() >> 32)
				switch s {
				case 0:
					from = 0
				case 1:
					from = 0xFFFF0000 - 1<<22
				}
				for bits.OnesCount32(from) > 16 {
					from &= from - 1
				}
				if !emit(&Life{Aes: true, Bdk: bdk, Ksn: ref.SetAesCounter(ksn, from), Whole: every, Until: int64(from) + int64(gridN(1<<12, 1<<19))}) {
					return
				}
			}
			// the last stretch of an AES terminal's life
			if !emit(&Life{Aes: true, Bdk: bdk, Ksn: ref.SetAesCounter(ksn, 0xFFFE0000), Whole: every}) {
				return
			}
		}
	}, checkWhole)
}
