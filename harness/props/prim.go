package props

import (
	"verifharness/eng"

	"github.com/moov-io/dukpt/encryption"
	"pgregory.net/rapid"

	"bytes"
	"verifharness/ref"
)

// C23: ciphers and hex helpers.

func primValid(c *Call) (ok bool, decided bool) {
	switch c.Fn {
	case "ecb.aesenc", "ecb.aesdec":
		return aesLenOK(len(c.Key)) && len(c.Msg) == 16, true
	case "ecb.desenc", "ecb.desdec":
		return len(c.Key) == 8 && len(c.Msg) == 8, true
	case "ecb.tdesenc", "ecb.tdesdec":
		return (len(c.Key) == 16 || len(c.Key) == 24) && len(c.Msg) == 8, true
	}
	return true, true
}

func checkPrim(r *eng.Rec, b *Batch) error {
	for i := range b.Calls {
		c := &b.Calls[i]
		o := exec(c)
		ok, _ := primValid(c)
		var err error
		if ok {
			err = verify(c, o)
			if err == nil && c.Fn == "hex.enc" {
				d := Call{Fn: "hex.dec", Msg: Hex(o.S)}
				err = verify(&d, exec(&d))
			}
		} else {
			switch {
			case eng.IsPanic(o.Err):
				err = fail(c.Fn+" panics", "%v", o.Err)
			case o.Err == nil:
				err = fail(c.Fn+" accepts a wrong length", "key of %d bytes, input of %d bytes: got %v", len(c.Key), len(c.Msg), o)
			}
		}
		if err != nil {
			b.Calls = b.Calls[:i+1]
			return err
		}
		cl := "accepted"
		if !ok {
			cl = "refused"
		}
		if c.Fn == "hex.dec" {
			if validHex(string(c.Msg)) {
				cl = "well-formed"
			} else {
				cl = "malformed"
			}
		}
		r.Eval(*c, true, c.Fn+" "+cl)
	}
	return nil
}

func drawPrimAny(g G, prev []Call) Call {
	c := drawPrim(g, prev)
	if c.Fn[:3] == "ecb" && g.n(3) == 0 {
		if g.bool() {
			c.Key = g.bytesN(g.n(70))
		} else {
			c.Msg = g.bytesN(g.n(70))
		}
	}
	return c
}

func primGrid(yield func(Call) bool) {
	p := mixer("primgrid")
	for rep := 0; rep < gridN(2, 40); rep++ {
		for _, fn := range []string{"ecb.aesenc", "ecb.aesdec", "ecb.desenc", "ecb.desdec", "ecb.tdesenc", "ecb.tdesdec"} {
			bs := 8
			ks := []int{8}
			switch fn[4:7] {
			case "aes":
				bs, ks = 16, []int{16, 24, 32}
			case "tde":
				ks = []int{16, 24}
			}
			// results that end and begin with the same byte
			for n := 0; n <= bs; n++ {
				for m := 0; m <= bs-n; m++ {
					for _, v := range []byte{0, 0xFF, ' ', '0', 0x80, byte(n)} {
						out := p.bytes(bs)
						for i := range out {
							if i < n || i >= bs-m {
								out[i] = v
							}
						}
						k := p.bytes(ks[p.n(len(ks))])
						if !yield(Call{Fn: fn, Key: k, Msg: ecbInverse(fn, k, out)}) {
							return
						}
						if !yield(Call{Fn: fn, Key: k, Msg: out}) {
							return
						}
					}
				}
			}
			for n := 0; n <= 80; n++ {
				if !yield(Call{Fn: fn, Key: p.bytes(n), Msg: p.bytes(bs)}) {
					return
				}
				for _, k := range ks {
					if !yield(Call{Fn: fn, Key: p.bytes(k), Msg: p.bytes(n)}) {
						return
					}
				}
			}
		}
		// every pair of characters, every single byte
		for a := 0; a < 256; a++ {
			if !yield(Call{Fn: "hex.enc", Msg: Hex{byte(a)}}) || !yield(Call{Fn: "hex.dec", Msg: Hex{byte(a)}}) {
				return
			}
			if rep > 0 {
				continue
			}
			for b := 0; b < 256; b++ {
				if !yield(Call{Fn: "hex.dec", Msg: Hex{byte(a), byte(b)}}) {
					return
				}
			}
		}
	}
}

// EcbObj is one cipher object used for several blocks in both directions,
// after its key slice has been overwritten.
type EcbObj struct {
	Kind   string `json:"kind"`
	Key    Hex    `json:"key"`
	Blocks []Hex  `json:"blocks"`
	Dirs   []bool `json:"dirs"` // true: encrypt
}

type ecb interface {
	Encrypt([]byte) ([]byte, error)
	Decrypt([]byte) ([]byte, error)
}

func drawEcbObj(t *rapid.T) EcbObj {
	g := G{t}
	o := EcbObj{Kind: pick(g, "aes", "des", "tdes")}
	bs := 8
	switch o.Kind {
	case "aes":
		bs, o.Key = 16, g.bytesN(g.aesLen())
	case "des":
		o.Key = g.bytesN(8)
	default:
		o.Key = g.bytesN(pick(g, 16, 24))
	}
	for n := 1 + g.n(6); n > 0; n-- {
		dir := g.bool()
		b := g.bytesN(bs)
		if g.n(3) == 0 {
			fn := map[bool]string{true: "enc", false: "dec"}[dir]
			b = ecbInverse("ecb."+o.Kind+fn, o.Key, b)
		}
		o.Blocks = append(o.Blocks, b)
		o.Dirs = append(o.Dirs, dir)
	}
	return o
}

func checkEcbObj(r *eng.Rec, c *EcbObj) error {
	var e ecb
	var err error
	key := append([]byte{}, c.Key...)
	if perr := eng.Try(func() {
		switch c.Kind {
		case "aes":
			e, err = encryption.NewAesECB(key)
		case "des":
			e, err = encryption.NewDesECB(key)
		default:
			e, err = encryption.NewTripleDesECB(key)
		}
	}); perr != nil {
		return fail("cipher construction panics", "%v", perr)
	}
	if err != nil {
		return fail("cipher construction fails", "%v", err)
	}
	for i := range key {
		key[i] ^= 0x5A
	}
	enc := map[string][2]func(k, in []byte) []byte{"aes": {ref.AesEnc, ref.AesDec}, "des": {ref.DesEnc, ref.DesDec}, "tdes": {ref.Tdes3Enc, ref.Tdes3Dec}}[c.Kind]
	var held, copies [][]byte
	for i, b := range c.Blocks {
		in := append([]byte{}, b...)
		var out []byte
		var oerr error
		want := enc[1](c.Key, b)
		if c.Dirs[i] {
			want = enc[0](c.Key, b)
		}
		if perr := eng.Try(func() {
			if c.Dirs[i] {
				out, oerr = e.Encrypt(in)
			} else {
				out, oerr = e.Decrypt(in)
			}
		}); perr != nil {
			return fail("cipher panics", "%v", perr)
		}
		if oerr != nil || !bytes.Equal(out, want) {
			return fail("cipher object result", "block %d: got %x, %v want %x", i, out, oerr, want)
		}
		held, copies = append(held, out), append(copies, append([]byte{}, out...))
		if d, ok := e.(*encryption.DesECB); ok {
			blk := d.GetBlock()
			got := make([]byte, 8)
			if blk.BlockSize() != 8 {
				return fail("GetBlock block size", "%d", blk.BlockSize())
			}
			if c.Dirs[i] {
				blk.Encrypt(got, b)
			} else {
				blk.Decrypt(got, b)
			}
			if !bytes.Equal(got, want) {
				return fail("GetBlock cipher", "got %x want %x", got, want)
			}
		}
	}
	for i := range held {
		if !bytes.Equal(held[i], copies[i]) {
			return fail("cipher object reuses its results", "block %d was %x and became %x", i, copies[i], held[i])
		}
	}
	r.Eval(c, true, "cipher object "+c.Kind)
	return nil
}
