package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/bits"
	"strings"

	"github.com/moov-io/dukpt/encryption"
	"github.com/moov-io/dukpt/pkg"
	"github.com/moov-io/dukpt/pkg/aes"
	"github.com/moov-io/dukpt/pkg/des"

	"verifharness/eng"
	"verifharness/ref"
)

// Call is one call of a public library function, with all its arguments.
type Call struct {
	Fn  string `json:"fn"`
	Key Hex    `json:"key,omitzero"` // BDK, initial key, transaction key or cipher key
	Ksn Hex    `json:"ksn,omitzero"`
	Msg Hex    `json:"msg,omitzero"` // message, ciphertext or block
	IV  Hex    `json:"iv,omitzero"`
	Pin Str    `json:"pin,omitempty"`
	Pan Str    `json:"pan,omitempty"`
	Fmt Str    `json:"fmt,omitempty"`
	Act Str    `json:"act,omitempty"`
	Kt  Str    `json:"kt,omitempty"`
	// Fill are the random nibbles of a PIN block made by the reference; Msg is
	// then ignored and the ciphertext of a decryption is built from Pin.
	Fill Hex `json:"fill,omitzero"`
}

// Out is what a call returned.
type Out struct {
	B    []byte
	S    string
	U    uint32
	Bool bool
	Err  error
}

func (o Out) String() string {
	switch {
	case o.Err != nil:
		return "error " + o.Err.Error()
	case o.B != nil:
		return clip(hex.EncodeToString(o.B))
	}
	return clip(fmt.Sprintf("%q/%d/%v", o.S, o.U, o.Bool))
}

// exec runs the call with exactly the argument slices given in c.
func exec(c *Call) (o Out) {
	var k []byte = c.Key
	var n []byte = c.Ksn
	var m []byte = c.Msg
	var iv []byte = c.IV
	pin, pan, f, act, kt := string(c.Pin), string(c.Pan), string(c.Fmt), string(c.Act), string(c.Kt)
	if err := eng.Try(func() {
		switch c.Fn {
		case "des.ik":
			o.B, o.Err = des.DerivationOfInitialKey(k, n)
		case "des.tk":
			o.B, o.Err = des.DeriveCurrentTransactionKey(k, n)
		case "des.encpin":
			o.B, o.Err = des.EncryptPin(k, pin, pan, f)
		case "des.decpin":
			o.S, o.Err = des.DecryptPin(k, m, pan, f)
		case "des.mac":
			o.B, o.Err = des.GenerateMac(k, string(m), act)
		case "des.enc":
			o.B, o.Err = des.EncryptData(k, iv, string(m), act)
		case "des.dec":
			o.S, o.Err = des.DecryptData(k, m, iv, act)
		case "aes.ik":
			o.B, o.Err = aes.DerivationOfInitialKey(k, n)
		case "aes.tk":
			o.B, o.Err = aes.DeriveCurrentTransactionKey(k, n)
		case "aes.encpin":
			o.B, o.Err = aes.EncryptPin(k, n, pin, pan, kt)
		case "aes.decpin":
			o.S, o.Err = aes.DecryptPin(k, n, m, pan, kt)
		case "aes.cmac":
			o.B, o.Err = aes.GenerateCMAC(k, n, string(m), kt, act)
		case "aes.hmac":
			o.B, o.Err = aes.GenerateHMAC(k, n, string(m), kt, act)
		case "aes.enc":
			o.B, o.Err = aes.EncryptData(k, n, iv, string(m), kt, act)
		case "aes.dec":
			o.S, o.Err = aes.DecryptData(k, n, m, iv, kt, act)
		case "ksn.desnext":
			o.B, o.Err = pkg.GenerateNextDesKsn(n)
		case "ksn.aesnext":
			o.B, o.Err = pkg.GenerateNextAesKsn(n)
		case "ksn.destc":
			o.U = pkg.GetDesTcFromKsn(n)
		case "ksn.aestc":
			o.U = pkg.GetAesTcFromKsn(n)
		case "ksn.aesvalid":
			o.Bool = pkg.IsValidAesKsn(n)
		case "hex.enc":
			o.S = pkg.HexEncode(m)
		case "hex.dec":
			o.B = pkg.HexDecode(string(m))
		case "ecb.aesenc", "ecb.aesdec":
			var e *encryption.AesECB
			if e, o.Err = encryption.NewAesECB(k); o.Err == nil {
				if c.Fn == "ecb.aesenc" {
					o.B, o.Err = e.Encrypt(m)
				} else {
					o.B, o.Err = e.Decrypt(m)
				}
			}
		case "ecb.desenc", "ecb.desdec", "ecb.tdesenc", "ecb.tdesdec":
			var e *encryption.DesECB
			if strings.HasPrefix(c.Fn, "ecb.tdes") {
				e, o.Err = encryption.NewTripleDesECB(k)
			} else {
				e, o.Err = encryption.NewDesECB(k)
			}
			if o.Err == nil {
				if strings.HasSuffix(c.Fn, "enc") {
					o.B, o.Err = e.Encrypt(m)
				} else {
					o.B, o.Err = e.Decrypt(m)
				}
			}
		default:
			eng.Harness("unknown function %q", c.Fn)
		}
	}); err != nil {
		return Out{Err: err}
	}
	return o
}

func resp(a Str) bool { return a == "response" }

// build fills the ciphertext of decryptions that the reference encrypts.
func build(c *Call) Call {
	d := *c
	if c.Fill == nil {
		return d
	}
	switch c.Fn {
	case "des.decpin":
		blk, err := ref.Encode8(strings.ToUpper(string(c.Fmt)), string(c.Pin), string(c.Pan), c.Fill)
		if err != nil {
			eng.Harness("reference encode: %v", err)
		}
		d.Msg = ref.TdesEnc(ref.DesPinKey(c.Key), blk)
	case "aes.decpin":
		d.Msg = ref.Iso4Encode(ref.AesWorking(c.Key, c.Ksn, ref.UsePin, len(c.Key), false), string(c.Pin), string(c.Pan), c.Fill)
	}
	return d
}

func wantBytes(c *Call, o Out, want []byte) error {
	if o.Err != nil {
		return fail(c.Fn+" fails", "%v, want %s", o.Err, clip(hex.EncodeToString(want)))
	}
	if !bytes.Equal(o.B, want) {
		return fail(c.Fn+" result", "got %s want %s", clip(hex.EncodeToString(o.B)), clip(hex.EncodeToString(want)))
	}
	return nil
}

func wantStr(c *Call, o Out, want string) error {
	if o.Err != nil {
		return fail(c.Fn+" fails", "%v, want %q", o.Err, clip(want))
	}
	if o.S != want {
		return fail(c.Fn+" result", "got %q want %q", clip(o.S), clip(want))
	}
	return nil
}

// verify compares the outcome of a call within the specified domain with the
// standard.
func verify(c *Call, o Out) error {
	switch c.Fn {
	case "des.ik":
		return wantBytes(c, o, ref.DesIK(c.Key, c.Ksn))
	case "des.tk":
		return wantBytes(c, o, ref.DesTK(c.Key, c.Ksn))
	case "des.mac":
		return wantBytes(c, o, ref.DesMac(c.Key, c.Msg, resp(c.Act)))
	case "des.enc":
		return wantBytes(c, o, ref.DesEncData(c.Key, c.IV, c.Msg, resp(c.Act)))
	case "des.dec":
		return wantStr(c, o, string(ref.DesDecData(c.Key, c.IV, c.Msg, resp(c.Act))))
	case "des.encpin":
		if o.Err != nil {
			return fail(c.Fn+" fails", "%v", o.Err)
		}
		if len(o.B) != 8 {
			return fail(c.Fn+" length", "%d bytes", len(o.B))
		}
		if err := ref.Valid8(strings.ToUpper(string(c.Fmt)), string(c.Pin), string(c.Pan), ref.TdesDec(ref.DesPinKey(c.Key), o.B)); err != nil {
			return fail(c.Fn+" block", "%v", err)
		}
		return nil
	case "des.decpin":
		return wantStr(c, o, ref.Carried(strings.ToUpper(string(c.Fmt)), string(c.Pin)))
	case "aes.ik":
		return wantBytes(c, o, ref.AesIK(c.Key, c.Ksn))
	case "aes.tk":
		return wantBytes(c, o, ref.AesTK(c.Key, c.Ksn))
	case "aes.cmac":
		return wantBytes(c, o, ref.AesCmac(c.Key, c.Ksn, c.Msg, resp(c.Act)))
	case "aes.hmac":
		return wantBytes(c, o, ref.AesHmac(c.Key, c.Ksn, c.Msg, resp(c.Act)))
	case "aes.enc":
		return wantBytes(c, o, ref.AesEncData(c.Key, c.Ksn, c.IV, c.Msg, resp(c.Act)))
	case "aes.dec":
		return wantStr(c, o, string(ref.AesDecData(c.Key, c.Ksn, c.IV, c.Msg, resp(c.Act))))
	case "aes.encpin":
		if o.Err != nil {
			return fail(c.Fn+" fails", "%v", o.Err)
		}
		pin, _, err := ref.Iso4Open(ref.AesWorking(c.Key, c.Ksn, ref.UsePin, len(c.Key), false), o.B, string(c.Pan))
		if err != nil {
			return fail(c.Fn+" block", "%v", err)
		}
		if pin != string(c.Pin) {
			return fail(c.Fn+" result", "block opens to PIN %s, want %s", pin, c.Pin)
		}
		return nil
	case "aes.decpin":
		return wantStr(c, o, string(c.Pin))
	case "ksn.desnext":
		next, ok := ref.NextCounter(uint64(ref.DesCounter(c.Ksn)), 21, 10)
		if !ok {
			if o.Err == nil {
				return fail(c.Fn+" exhausted", "got %x instead of an error", o.B)
			}
			return notPanic(c, o)
		}
		return wantBytes(c, o, ref.SetDesCounter(c.Ksn, uint32(next)))
	case "ksn.aesnext":
		next, ok := ref.NextCounter(uint64(ref.AesCounter(c.Ksn)), 32, 16)
		if !ok {
			if o.Err == nil {
				return fail(c.Fn+" exhausted", "got %x instead of an error", o.B)
			}
			return notPanic(c, o)
		}
		return wantBytes(c, o, ref.SetAesCounter(c.Ksn, uint32(next)))
	case "ksn.destc":
		if o.Err != nil || o.U != ref.DesCounter(c.Ksn) {
			return fail(c.Fn, "got %v want %d", o, ref.DesCounter(c.Ksn))
		}
	case "ksn.aestc":
		if o.Err != nil || o.U != ref.AesCounter(c.Ksn) {
			return fail(c.Fn, "got %v want %d", o, ref.AesCounter(c.Ksn))
		}
	case "ksn.aesvalid":
		v := ref.AesCounter(c.Ksn)
		want := v != 0 && bits.OnesCount32(v) <= 16
		if o.Err != nil || o.Bool != want {
			return fail(c.Fn, "got %v want %v", o, want)
		}
	case "hex.enc":
		return wantStr(c, o, hex.EncodeToString(c.Msg))
	case "hex.dec":
		want, err := hex.DecodeString(string(c.Msg))
		if err != nil {
			want = nil
		}
		if o.Err != nil {
			return fail(c.Fn+" fails", "%v", o.Err)
		}
		if len(want) == 0 && len(o.B) == 0 {
			return nil
		}
		return wantBytes(c, o, want)
	case "ecb.aesenc":
		return wantBytes(c, o, ref.AesEnc(c.Key, c.Msg))
	case "ecb.aesdec":
		return wantBytes(c, o, ref.AesDec(c.Key, c.Msg))
	case "ecb.desenc":
		return wantBytes(c, o, ref.DesEnc(c.Key, c.Msg))
	case "ecb.desdec":
		return wantBytes(c, o, ref.DesDec(c.Key, c.Msg))
	case "ecb.tdesenc":
		return wantBytes(c, o, ref.Tdes3Enc(c.Key, c.Msg))
	case "ecb.tdesdec":
		return wantBytes(c, o, ref.Tdes3Dec(c.Key, c.Msg))
	default:
		eng.Harness("no oracle for %q", c.Fn)
	}
	return nil
}

func notPanic(c *Call, o Out) error {
	if eng.IsPanic(o.Err) {
		return fail(c.Fn+" panics", "%v", o.Err)
	}
	return nil
}

// Batch is a sequence of calls that share some of their arguments.
type Batch struct {
	Calls []Call `json:"calls"`
}

func drawBatch(g G, max int, one func(g G, prev []Call) Call) Batch {
	n := 1 + g.n(max)
	b := Batch{}
	for i := 0; i < n; i++ {
		c := one(g, b.Calls)
		if i > 0 && g.n(4) == 3 {
			c = g.echoCall(pick(g, b.Calls[i-1], pick(g, b.Calls...)), c)
		}
		b.Calls = append(b.Calls, c)
	}
	return b
}

// echoCall is an earlier call again with one argument from another call of the
// same function, to show what an implementation remembers of it.
func (g G) echoCall(c, from Call) Call {
	if c.Fn != from.Fn {
		return from
	}
	switch g.n(10) {
	case 0:
	case 1:
		if len(c.Key) == len(from.Key) {
			c.Key = from.Key
		}
	case 2:
		if len(c.Ksn) == len(from.Ksn) {
			c.Ksn = from.Ksn
		}
	case 3:
		if c.Fill == nil {
			c.Msg = from.Msg
		}
	case 4:
		c.IV = from.IV
		if len(c.IV) > 0 && g.bool() {
			c.IV = append(Hex{}, c.IV...)
			c.IV[g.n(len(c.IV))] ^= 1 << g.n(8)
		}
	case 5:
		c.Pin = from.Pin
	case 6:
		if pin, pan, ok := twin(g.seed(), c.Pin, c.Pan, c.Fmt); ok && c.Fn == "des.decpin" && g.bool() {
			c.Pin, c.Pan = pin, pan
		} else {
			c.Pan = from.Pan
		}
	case 7:
		c.Fmt = from.Fmt
	case 8, 9:
		c.Act = from.Act
		if g.bool() {
			c.Act = pick[Str](g, "request", "response")
		}
	}
	return c
}

func keysOf(prev []Call) (r []Hex) {
	for _, c := range prev {
		r = append(r, c.Key)
	}
	return
}

func ksnsOf(prev []Call) (r []Hex) {
	for _, c := range prev {
		if c.Ksn != nil {
			r = append(r, c.Ksn)
		}
	}
	return
}

func msgsOf(prev []Call) (r []Hex) {
	for _, c := range prev {
		r = append(r, c.Msg)
	}
	return
}

func pansOf(prev []Call) (r []Str) {
	for _, c := range prev {
		r = append(r, c.Pan)
	}
	return
}

// checkBatch runs and verifies every call; inverse adds the decryption of
// every encryption by the library itself.
func checkBatch(r *eng.Rec, b *Batch, classify func(c *Call) (bool, []string)) error {
	for i := range b.Calls {
		c := build(&b.Calls[i])
		o := exec(&c)
		if err := verify(&c, o); err != nil {
			b.Calls = b.Calls[:i+1]
			return err
		}
		if err := inverse(&c, o); err != nil {
			b.Calls = b.Calls[:i+1]
			return err
		}
		nt, classes := classify(&c)
		r.Eval(b.Calls[i], nt, classes...)
	}
	return nil
}

func inverse(c *Call, o Out) error {
	d := *c
	d.Fill = nil
	switch c.Fn {
	case "des.encpin":
		d.Fn, d.Msg = "des.decpin", o.B
		return wantStr(&d, exec(&d), ref.Carried(strings.ToUpper(string(c.Fmt)), string(c.Pin)))
	case "aes.encpin":
		d.Fn, d.Msg = "aes.decpin", o.B
		return wantStr(&d, exec(&d), string(c.Pin))
	case "des.enc", "aes.enc":
		d.Fn, d.Msg = c.Fn[:4]+"dec", o.B
		bs := 8
		if d.Fn == "aes.dec" {
			bs = 16
		}
		want := string(c.Msg)
		for len(want)%bs != 0 {
			want += "\x00"
		}
		return wantStr(&d, exec(&d), want)
	}
	return nil
}
