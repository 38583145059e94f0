package props

import (
	"encoding/hex"
	"strconv"
	"strings"

	"verifharness/eng"
	"verifharness/ref"

	"github.com/moov-io/dukpt/pkg/server"
	"pgregory.net/rapid"
)

// Unified is one unified call: a library call whose byte parameters are
// written as hex.
type Unified struct {
	Call Call   `json:"call"`
	Case []int  `json:"case"`          // letter case of each hex parameter: 0 lower, 1 upper, 2 mixed
	Bad  string `json:"bad,omitempty"` // parameter with malformed hex
	Text Str    `json:"text,omitempty"`
	Bad2 string `json:"bad2,omitempty"` // another parameter with malformed hex
	Tex2 Str    `json:"tex2,omitempty"`
	Alg  Str    `json:"alg,omitempty"` // for algorithm validation
	Mac  Str    `json:"mac,omitempty"` // MAC type instead of the documented one
	Junk []Junk `json:"junk,omitempty"`
	Gone string `json:"gone,omitempty"` // parameter left empty
}

// Junk is the value of a parameter that the call does not use.
type Junk struct {
	Name string `json:"name"`
	Text Str    `json:"text"`
}

// unused are the parameters that a call takes no notice of.
func unused(fn string) (r []string) {
	used := map[string]bool{}
	for _, n := range hexParams(fn) {
		used[n] = true
	}
	aes := fn[:3] == "aes"
	switch fn[4:] {
	case "encpin", "decpin":
		used["PIN"], used["PAN"], used["Format"], used["AlgorithmKey"] = true, true, !aes, aes
	case "mac", "cmac", "hmac":
		used["Plaintext"], used["Action"], used["MacType"], used["AlgorithmKey"] = true, true, aes, aes
	case "enc":
		used["Plaintext"], used["Action"], used["AlgorithmKey"] = true, true, aes
	case "dec":
		used["Action"], used["AlgorithmKey"] = true, aes
	}
	for _, n := range []string{"AlgorithmKey", "BKD", "KSN", "IK", "TK", "PIN", "PAN", "Format", "MacType", "Plaintext", "Ciphertext", "Action", "IV"} {
		if !used[n] {
			r = append(r, n)
		}
	}
	return r
}

func drawJunk(g G, fn string) (r []Junk) {
	p := g.seed()
	for _, n := range unused(fn) {
		if p.n(3) == 0 {
			continue
		}
		var v string
		switch p.n(7) {
		case 0:
			continue
		case 1:
			v = hex.EncodeToString(p.bytes([]int{1, 8, 10, 12, 16, 24, 32}[p.n(7)]))
		case 2:
			v = p.digits(1 + p.n(20))
		case 3:
			v = []string{"cmac", "hmac", "request", "response", "AES128", "AES192", "AES256", "HMAC128", "TDES2", "DES", "ISO-0", "ISO-3", "ISO-4", "ECI2", "VISA1", "aes", "des"}[p.n(17)]
		case 4:
			v = specialText(p)
		case 5: // what it usually is
			switch n {
			case "AlgorithmKey":
				v = []string{"AES128", "AES192", "AES256"}[p.n(3)]
			case "MacType":
				v = []string{"cmac", "hmac"}[p.n(2)]
			case "Format":
				v = []string{"ISO-0", "ISO-1", "ISO-4"}[p.n(3)]
			case "Action":
				v = []string{"request", "response"}[p.n(2)]
			case "PAN", "PIN":
				v = p.digits(4 + p.n(9))
			default:
				v = hex.EncodeToString(p.bytes([]int{8, 10, 12, 16, 32}[p.n(5)]))
			}
		default:
			v = []string{"0", "x", "zz", " ", "\x00", "0g"}[p.n(6)]
		}
		r = append(r, Junk{n, Str(v)})
	}
	return r
}

func hexCase(h Hex, c int) string {
	s := hex.EncodeToString(h)
	switch c {
	case 1:
		return strings.ToUpper(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if i%3 == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

// hexParams are the hex parameters of a call, in UnifiedParams terms.
func hexParams(fn string) []string {
	a := fn[:3] == "aes"
	switch fn[4:] {
	case "ik":
		return []string{"BKD", "KSN"}
	case "tk":
		return []string{"IK", "KSN"}
	case "encpin", "mac", "cmac", "hmac":
		if a {
			return []string{"TK", "KSN"}
		}
		return []string{"TK"}
	case "decpin":
		if a {
			return []string{"TK", "KSN", "PIN"}
		}
		return []string{"TK", "PIN"}
	case "enc":
		if a {
			return []string{"TK", "KSN", "IV"}
		}
		return []string{"TK", "IV"}
	case "dec":
		if a {
			return []string{"TK", "KSN", "IV", "Ciphertext"}
		}
		return []string{"TK", "IV", "Ciphertext"}
	}
	return nil
}

func drawUnifiedCall(g G) Call {
	var c Call
	switch g.n(11) {
	case 0:
		c = drawDesIK(g, nil)
	case 1:
		c = drawDesTK(g, nil)
	case 2:
		c = drawDesPin(g, nil)
	case 3:
		c = drawDesMac(g, nil)
	case 4:
		c = drawDesData(g, nil)
	case 5:
		c = drawAesIK(g, nil)
	case 6:
		c = drawAesTK(g, nil)
	case 7:
		c = drawAesPin(g, nil)
	case 8, 9:
		c = drawAesMac(g, nil)
	default:
		c = drawAesData(g, nil)
	}
	c = build(&c)
	c.Fill = nil
	if len(c.Msg) > 3000 {
		c.Msg = c.Msg[:2048]
	}
	return c
}

func drawUnified(t *rapid.T) Unified {
	g := G{t}
	if g.one(12) {
		if g.bool() {
			return Unified{Alg: Str(g.nearWord(algs...))}
		}
		return Unified{Alg: pick[Str](g, "des", "aes", "DES", "AES", "Aes", "", "tdes", "3des", " des", "aes ", "desaes", "hmac", "\x00", Str(g.dictStr()))}
	}
	u := Unified{Call: drawUnifiedCall(g)}
	ps := hexParams(u.Call.Fn)
	for range ps {
		u.Case = append(u.Case, g.n(3))
	}
	switch {
	case g.n(4) == 0:
		u.Bad = ps[g.n(len(ps))]
		u.Text = Str(g.badHex(hexCase(u.value(u.Bad), g.n(3))))
		if p := g.seed(); p.n(3) == 0 && len(ps) > 1 {
			for u.Bad2 == "" || u.Bad2 == u.Bad {
				u.Bad2 = ps[p.n(len(ps))]
			}
			a, b := hexCase(u.value(u.Bad), p.n(3)), hexCase(u.value(u.Bad2), p.n(3))
			switch k := 1 + 2*p.n(2); {
			case len(a) > k && p.n(3) > 0: // digits move from one to the other
				if p.n(2) == 0 {
					a, b = a[:len(a)-k], a[len(a)-k:]+b
				} else {
					a, b = a[k:], b+a[:k]
				}
			case len(b) > 0:
				a, b = a+"0", b[1:]
			default:
				a, b = a+"0", "f"
			}
			u.Text, u.Tex2 = Str(a), Str(b)
		}
	case (u.Call.Fn == "aes.cmac" || u.Call.Fn == "aes.hmac") && g.n(5) == 0:
		u.Mac = pick[Str](g, "CMAC", "Hmac", "mac", "cmac ", "none", "cmachmac", "retail", "\x00", Str(g.dictStr()))
	}
	if u.Mac == "" && u.Bad == "" && u.Call.Fn[4:] == "cmac" && g.n(8) == 0 {
		u.Mac = Str(g.nearWord(macTypes...))
	}
	if g.bool() {
		u.Junk = drawJunk(g, u.Call.Fn)
	}
	if u.Bad == "" && u.Mac == "" && g.n(10) == 0 { // a parameter is missing
		u.Gone = ps[g.n(len(ps))]
		for i := range u.Junk { // and another might do
			if g.bool() {
				u.Junk[i].Text = Str(hexCase(u.value(u.Gone), g.n(3)))
			}
		}
	}
	return u
}

func (u *Unified) value(p string) Hex {
	c := &u.Call
	switch p {
	case "KSN":
		return c.Ksn
	case "IV":
		return c.IV
	case "PIN", "Ciphertext":
		return c.Msg
	}
	return c.Key
}

func (u *Unified) params() server.UnifiedParams {
	c := &u.Call
	p := server.UnifiedParams{Algorithm: c.Fn[:3], Action: string(c.Act), Format: string(c.Fmt), PAN: string(c.Pan), PIN: string(c.Pin), Plaintext: string(c.Msg)}
	if p.Algorithm == "aes" {
		n := len(c.Key)
		p.AlgorithmKey = "AES" + strconv.Itoa(8*n)
		if c.Kt != "" && c.Fn != "aes.hmac" {
			p.AlgorithmKey = string(c.Kt)
		}
		p.MacType = "cmac"
		if c.Fn == "aes.hmac" {
			p.MacType = "hmac"
		}
		if u.Mac != "" {
			p.MacType = string(u.Mac)
		}
	}
	for i, name := range hexParams(c.Fn) {
		v := hexCase(u.value(name), u.Case[i])
		if name == u.Bad {
			v = string(u.Text)
		}
		if name == u.Bad2 {
			v = string(u.Tex2)
		}
		if name == u.Gone {
			v = ""
		}
		switch name {
		case "BKD":
			p.BKD = v
		case "IK":
			p.IK = v
		case "TK":
			p.TK = v
		case "KSN":
			p.KSN = v
		case "IV":
			p.IV = v
		case "PIN":
			p.PIN = v
		case "Ciphertext":
			p.Ciphertext = v
		}
	}
	for _, j := range u.Junk {
		f := map[string]*string{"AlgorithmKey": &p.AlgorithmKey, "BKD": &p.BKD, "KSN": &p.KSN, "IK": &p.IK, "TK": &p.TK, "PIN": &p.PIN, "PAN": &p.PAN, "Format": &p.Format, "MacType": &p.MacType, "Plaintext": &p.Plaintext, "Ciphertext": &p.Ciphertext, "Action": &p.Action, "IV": &p.IV}[j.Name]
		if f != nil {
			*f = string(j.Text)
		}
	}
	return p
}

func unifiedFn(fn string) server.WrapperCall {
	switch fn[4:] {
	case "ik":
		return server.InitialKey
	case "tk":
		return server.TransactionKey
	case "encpin":
		return server.EncryptPin
	case "decpin":
		return server.DecryptPin
	case "mac", "cmac", "hmac":
		return server.GenerateMac
	case "enc":
		return server.EncryptData
	case "dec":
		return server.DecryptData
	}
	eng.Harness("no unified call for %q", fn)
	return nil
}

// asOut turns a unified result into the library's terms; lower-case hex is
// demanded.
func asOut(c *Call, s string, err error) (Out, error) {
	o := Out{Err: err}
	if err != nil {
		return o, nil
	}
	if c.Fn[4:] == "decpin" || c.Fn[4:] == "dec" {
		o.S = s
		return o, nil
	}
	if s != strings.ToLower(s) {
		return o, fail("result is not lower-case hex", "%s", clip(s))
	}
	b, derr := hex.DecodeString(s)
	if derr != nil {
		return o, fail("result is not hex", "%s", clip(s))
	}
	if b == nil {
		b = []byte{}
	}
	o.B = b
	return o, nil
}

func checkUnified(r *eng.Rec, u *Unified) error {
	if u.Call.Fn == "" {
		var err error
		if p := eng.Try(func() { err = server.UnifiedParams{Algorithm: string(u.Alg)}.ValidateAlgorithm() }); p != nil {
			return fail("algorithm validation panics", "%v", p)
		}
		if want := u.Alg == "des" || u.Alg == "aes"; (err == nil) != want {
			return fail("algorithm validation", "%q: %v", u.Alg, err)
		}
		r.Eval(u, true, "algorithm validation")
		return nil
	}
	p := u.params()
	before := p
	var s string
	var err error
	if perr := eng.Try(func() { s, err = unifiedFn(u.Call.Fn)(p) }); perr != nil {
		return fail("unified call panics", "%v", perr)
	}
	_ = before
	if u.Bad != "" {
		if validHex(string(u.Text)) && (u.Bad2 == "" || validHex(string(u.Tex2))) {
			return nil // the damage left well-formed hex of another length
		}
		if err == nil {
			return fail("malformed hex accepted", "%s in parameter %s: result %q", u.Call.Fn, u.Bad, clip(s))
		}
		r.Eval(u, true, "malformed "+u.Bad, "call "+u.Call.Fn)
		return nil
	}
	if u.Gone != "" {
		c := u.Call
		switch u.Gone {
		case "KSN":
			c.Ksn = Hex{}
		case "IV":
			c.IV = Hex{}
		case "PIN", "Ciphertext":
			c.Msg = Hex{}
		default:
			c.Key = Hex{}
		}
		if c.Fn[:3] == "aes" {
			c.Kt = ktOf(len(u.Call.Key), c.Fn == "aes.hmac")
		}
		why := mustFail(&c)
		if why != "" && err == nil {
			return fail("missing parameter accepted", "%s without %s: result %q", c.Fn, u.Gone, clip(s))
		}
		if why != "" {
			r.Eval(u, true, "missing "+u.Gone, "call "+c.Fn)
		}
		return nil
	}
	if u.Mac != "" && u.Mac != "cmac" && u.Mac != "hmac" {
		if err == nil {
			return fail("unknown MAC type accepted", "%q: result %q", u.Mac, clip(s))
		}
		r.Eval(u, true, "unknown MAC type")
		return nil
	}
	if u.Mac != "" { // the dictionary hit a documented type
		u.Call.Fn = "aes." + string(u.Mac)
		u.Call.Kt = ktOf(len(u.Call.Key), u.Mac == "hmac")
	}
	if why := mustFail(&u.Call); why != "" {
		if err == nil {
			return fail("unified call accepts a wrong "+why, "%s: result %q", u.Call.Fn, clip(s))
		}
		if s != "" {
			return fail("unified call returns a result with its error", "%s: result %q with %v", u.Call.Fn, clip(s), err)
		}
		r.Eval(u, true, "refused: "+why, "call "+u.Call.Fn)
		return nil
	}
	o, oerr := asOut(&u.Call, s, err)
	if oerr != nil {
		return oerr
	}
	if u.Call.Fn[4:] == "decpin" {
		if err := verifyDecPin(&u.Call, o); err != nil {
			return err
		}
	} else if err := verify(&u.Call, o); err != nil {
		return fail("unified "+err.Error(), "params %+v", clip(strings.TrimSpace(p.KSN)))
	}
	_, cl := classify(&u.Call)
	if len(u.Junk) > 0 {
		cl = append(cl, "unused parameters set")
	}
	r.Eval(u, true, cl...)
	return nil
}

// verifyDecPin checks a PIN decryption whose ciphertext came from the
// reference (the expected PIN is in the call).
func verifyDecPin(c *Call, o Out) error {
	want := string(c.Pin)
	if c.Fn == "des.decpin" {
		want = ref.Carried(strings.ToUpper(string(c.Fmt)), want)
	}
	return wantStr(c, o, want)
}
