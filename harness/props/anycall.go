package props

import (
	"strings"

	"verifharness/eng"
	"verifharness/ref"
)

// drawAny draws a well-formed call of any library function.
func drawAny(g G, prev []Call) Call {
	switch g.n(20) {
	case 0:
		return drawDesIK(g, prev)
	case 1, 2:
		return drawDesTK(g, prev)
	case 3, 4:
		return drawDesPin(g, prev)
	case 5:
		return drawDesMac(g, prev)
	case 6, 7:
		return drawDesData(g, prev)
	case 8:
		return drawAesIK(g, prev)
	case 9, 10:
		return drawAesTK(g, prev)
	case 11, 12:
		return drawAesPin(g, prev)
	case 13, 14:
		return drawAesMac(g, prev)
	case 15, 16:
		return drawAesData(g, prev)
	case 17:
		return drawKsnCall(false)(g, prev)
	case 18:
		return drawKsnCall(true)(g, prev)
	default:
		return drawPrim(g, prev)
	}
}

func drawPrim(g G, prev []Call) Call {
	c := drawPrimPlain(g, prev)
	if c.Fn[:3] == "ecb" && g.n(3) == 0 {
		c.Msg = ecbInverse(c.Fn, c.Key, c.Msg)
	}
	return c
}

// ecbInverse is the input for which the function yields out.
func ecbInverse(fn string, key, out []byte) []byte {
	switch fn {
	case "ecb.aesenc":
		return ref.AesDec(key, out)
	case "ecb.aesdec":
		return ref.AesEnc(key, out)
	case "ecb.desenc":
		return ref.DesDec(key, out)
	case "ecb.desdec":
		return ref.DesEnc(key, out)
	case "ecb.tdesenc":
		return ref.Tdes3Dec(key, out)
	}
	return ref.Tdes3Enc(key, out)
}

func drawPrimPlain(g G, prev []Call) Call {
	switch g.n(9) {
	case 0:
		return Call{Fn: "hex.enc", Msg: g.msg(8, msgsOf(prev)...)}
	case 1, 2:
		return Call{Fn: "hex.dec", Msg: Hex(g.hexText())}
	case 3, 4:
		return Call{Fn: pick(g, "ecb.aesenc", "ecb.aesdec"), Key: g.key(g.aesLen(), keysOf(prev)...), Msg: g.bytesN(16)}
	case 5, 6:
		return Call{Fn: pick(g, "ecb.desenc", "ecb.desdec"), Key: g.key(8, keysOf(prev)...), Msg: g.bytesN(8)}
	default:
		return Call{Fn: pick(g, "ecb.tdesenc", "ecb.tdesdec"), Key: g.key(pick(g, 16, 24), keysOf(prev)...), Msg: g.bytesN(8)}
	}
}

const hexChars = "0123456789abcdefABCDEF"

// hexText is hex in mixed case, most of the time well-formed.
func (g G) hexText() string {
	n := 2 * g.n(40)
	if g.one(30) {
		n = 2 * g.n(3000)
	}
	p := g.seed()
	b := make([]byte, n)
	style := g.n(3)
	for i := range b {
		switch style {
		case 0:
			b[i] = hexChars[p.n(16)]
		default:
			b[i] = hexChars[p.n(22)]
		}
	}
	if g.n(3) == 0 {
		return g.badHex(string(b))
	}
	return string(b)
}

// badHex damages a hex text.
func (g G) badHex(s string) string {
	switch g.n(9) {
	case 7: // white space at the ends
		ws := pick(g, "\n", "\r\n", " ", "\t", "\r", "  ", "\n\n", "\x00", "\ufeff", "\u00a0")
		switch g.n(3) {
		case 0:
			return ws + s
		case 1:
			return ws + s + ws
		}
		return s + ws
	case 8: // other notations of the same bytes
		switch p := g.seed(); p.n(8) {
		case 0:
			return "0X" + s
		case 1:
			return s + "h"
		case 2:
			return "\"" + s + "\""
		case 3:
			return "\\x" + s
		case 4:
			return "#" + s
		case 5:
			return s + "="
		case 6:
			return "0x" + s + "0x"
		default:
			if len(s) < 4 {
				return s + ":"
			}
			sep := []string{" ", ":", "-", "_", "  ", "\n", ","}[p.n(7)]
			l, k := []string{}, 2*(1+p.n(8))
			for ; len(s) > k; s = s[k:] {
				l = append(l, s[:k])
			}
			if len(l) == 0 {
				return s[:2] + sep + s[2:]
			}
			return strings.Join(append(l, s), sep)
		}
	case 0: // odd
		if s == "" {
			return "a"
		}
		return s[:len(s)-1]
	case 1:
		return s + pick(g, "0", "f", "A")
	case 2:
		return "0x" + s
	case 3:
		return pick(g, " "+s+" ", s+"\n0", "zz"+s, s+"::", s+"g0", s+"\x00\x00")
	default:
		if s == "" {
			return "g0"
		}
		p := g.n(len(s))
		return s[:p] + pick(g, "g", "G", "z", " ", "-", ":", "\x00", "/", "@", "`", "O", "l", "\xff", ".") + s[p+1:]
	}
}

func validHex(s string) bool {
	return len(s)%2 == 0 && strings.Trim(s, hexChars) == ""
}

// mutate makes a well-formed call malformed in one or two arguments.
func mutate(g G, c Call) Call {
	c = build(&c)
	c.Fill = nil
	resize := func(h Hex) Hex {
		h = append(Hex{}, h...)
		switch g.n(8) {
		case 0:
			return nil
		case 1:
			return Hex{}
		case 2:
			if len(h) > 0 {
				return h[:len(h)-1]
			}
			return g.bytesN(1)
		case 3:
			return append(h, g.byteVal())
		case 4:
			return g.bytesN(pick(g, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 48, 64))
		case 5:
			return append(h, h...)
		case 6:
			return h[:g.n(len(h)+1)]
		default:
			return g.bytesN(g.n(70))
		}
	}
	str := func(s Str) Str {
		switch g.n(13) {
		case 9: // white space and separators in several places
			p := g.seed()
			ws := []string{" ", "\t", "-", " \t", "\t ", "\n", "\r\n", "\u00a0", ".", "_", ","}
			a, b := ws[p.n(len(ws))], ws[p.n(len(ws))]
			r := []string{"", a, a + b, b}[p.n(4)]
			k := 1 + p.n(5)
			for i := 0; i < len(s); i += k {
				r += string(s[i:min(len(s), i+k)])
				if p.n(2) == 0 {
					r += []string{a, b}[p.n(2)]
				}
			}
			return Str(r + []string{"", a, b, a + b}[p.n(4)])
		case 10:
			return Str(specialText(g.seed()))
		case 0:
			return ""
		case 1:
			return s + Str(g.seed().digits(1+g.n(12)))
		case 2:
			return s[:g.n(len(s)+1)]
		case 3:
			return Str(g.dictStr())
		case 4:
			return Str(g.seed().bytes(g.n(30)))
		case 5:
			return s + s
		case 6:
			if len(s) == 0 {
				return "\x00"
			}
			p := g.n(len(s))
			return s[:p] + pick[Str](g, "x", "A", "F", "-", " ", "\x00", "é", "٣", "０", "\xff") + s[p+1:]
		case 7:
			return Str(strings.Repeat("9", g.n(80)))
		case 11, 12:
			return Str(g.nearWord(allWords...))
		default:
			return pick[Str](g, "ISO-4", "iso-4", "ISO-5", "ISO", "ISO-", "ISO-00", "ISO_0", "ISO 0", "iso0", "ECI", "ECI5", "VISA", "VISA5", "OEM1", "OEM-1", "DOCUTEL", "AES", "AES64", "AES512", "aes128", "Aes256", "AES-128", "HMAC128", "HMAC192", "HMAC256", "HMAC512", "TDES2", "TDES3", "DES", "TDES", "RSA", "AES128 ", "request", "response")
		}
	}
	for n := 1 + g.n(2); n > 0; n-- {
		switch g.n(10) {
		case 0, 1:
			c.Key = resize(c.Key)
		case 2, 3:
			c.Ksn = resize(c.Ksn)
		case 4:
			c.Msg = resize(c.Msg)
		case 5:
			c.IV = resize(c.IV)
		case 6:
			c.Pin = str(c.Pin)
		case 7:
			c.Pan = str(c.Pan)
		case 8:
			c.Fmt = str(c.Fmt)
		case 9:
			c.Kt = str(c.Kt)
		}
	}
	if c.Fn[4:] == "decpin" && g.bool() {
		p := g.seed()
		c = buildNear(c, p.n(8), p.bytes(16))
	}
	return c
}

func aesLenOK(n int) bool { return n == 16 || n == 24 || n == 32 }

func ascii(s Str) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// mustFail names the reason why a call has to be refused, "" when it need not
// be.
func mustFail(c *Call) string {
	f := strings.ToUpper(string(c.Fmt))
	unknown := ascii(c.Fmt) && ref.Family(f) == ""
	kt := func(hmac bool) string {
		switch {
		case !aesLenOK(len(c.Key)):
			return "key length"
		case c.Kt == ktOf(len(c.Key), hmac):
			return ""
		case strings.EqualFold(string(c.Kt), string(ktOf(len(c.Key), hmac))):
			return "?" // letter case is not specified
		case c.Kt == ktOf(16, hmac), c.Kt == ktOf(24, hmac), c.Kt == ktOf(32, hmac):
			return "key type mismatch"
		}
		return "unknown key type"
	}
	pinLen := func(cut bool) string {
		if len(c.Pin) < 4 || len(c.Pin) > 12 && !cut {
			return "pin length"
		}
		return ""
	}
	first := func(rs ...string) string {
		for _, r := range rs {
			if r == "?" {
				return ""
			}
			if r != "" {
				return r
			}
		}
		return ""
	}
	when := func(b bool, r string) string {
		if b {
			return r
		}
		return ""
	}
	ksn12 := when(len(c.Ksn) != 12, "ksn length")
	fam := ref.Family(f)
	cuts := fam == "iso1" || fam == "iso2" || fam == "visa3" || !ascii(c.Fmt)
	panShort := when(ref.UsesPan(f) && len(c.Pan) < 13, "pan length")
	oddPin := when(len(c.Pin) >= 4 && len(c.Pin) <= 12 && notHex(ref.Carried(f, string(c.Pin))), "pin characters")
	oddPan := ""
	if n := len(c.Pan); ascii(c.Pan) && n <= 19 {
		switch {
		case c.Fn[:3] == "aes" && n >= 12:
			oddPan = when(notHex(string(c.Pan)), "pan characters")
		case c.Fn[:3] == "des" && ref.UsesPan(f) && n >= 13:
			oddPan = when(notHex(string(c.Pan[n-13:n-1])), "pan characters")
		}
	}
	switch c.Fn {
	case "des.ik", "des.tk":
		return first(when(len(c.Key) != 16, "key length"), when(len(c.Ksn) > 10, "ksn length"))
	case "des.mac", "des.enc", "des.dec":
		return when(len(c.Key) != 16, "key length")
	case "des.encpin":
		return first(when(len(c.Key) != 16, "key length"), when(unknown, "unknown format"), pinLen(cuts), panShort, when(ascii(c.Fmt), oddPin), oddPan)
	case "des.decpin":
		return first(when(len(c.Key) != 16, "key length"), when(unknown, "unknown format"), when(len(c.Msg) != 8, "ciphertext length"), panShort, oddPan)
	case "aes.ik":
		return first(when(!aesLenOK(len(c.Key)), "key length"), when(len(c.Ksn) < 8, "key id length"))
	case "aes.tk":
		return first(when(!aesLenOK(len(c.Key)), "key length"), ksn12)
	case "aes.encpin":
		return first(kt(false), ksn12, pinLen(false), when(len(c.Pan) < 12, "pan length"), oddPin, oddPan)
	case "aes.decpin":
		return first(kt(false), ksn12, when(len(c.Msg) != 16, "ciphertext length"), when(len(c.Pan) < 12, "pan length"), oddPan)
	case "aes.cmac", "aes.enc", "aes.dec":
		return first(kt(false), ksn12)
	case "aes.hmac":
		return first(kt(true), ksn12)
	case "ksn.desnext":
		return when(len(c.Ksn) < 4 || len(c.Ksn) > 10, "ksn length")
	case "ksn.aesnext":
		return ksn12
	}
	return ""
}

// notHex tells whether a character is none that a PIN block has room for.
func notHex(s string) bool {
	for i := 0; i < len(s); i++ {
		if !strings.ContainsRune("0123456789abcdefABCDEF", rune(s[i])) {
			return true
		}
	}
	return false
}

func checkMalformed(r *eng.Rec, b *Batch) error {
	for i := range b.Calls {
		c := &b.Calls[i]
		o := exec(c)
		why := mustFail(c)
		var err error
		switch {
		case eng.IsPanic(o.Err):
			err = fail(c.Fn+" panics", "%v", o.Err)
		case why == "":
		case o.Err == nil:
			err = fail(c.Fn+" accepts a wrong "+why, "got %v", o)
		case len(o.B) != 0 || o.S != "":
			err = fail(c.Fn+" returns a result with its error", "%x %q with %v", o.B, o.S, o.Err)
		}
		if err != nil {
			b.Calls = b.Calls[:i+1]
			return err
		}
		cl := "not refused by the specification"
		if why != "" {
			cl = "refused: " + why
		}
		r.Eval(*c, true, cl, "call "+c.Fn)
	}
	return nil
}

func drawMalformed(g G, prev []Call) Call { return mutate(g, drawAny(g, prev)) }

// callLengths are short lengths and those that a counter of few bits, or a
// buffer of some size, would take for another.
var callLengths = func() (r []int) {
	for n := 0; n <= 70; n++ {
		r = append(r, n)
	}
	for _, w := range []int{128, 256, 512, 1024, 2048, 4096, 8192, 16384, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 20} {
		for _, d := range []int{-1, 0, 1, 4, 8, 10, 12, 13, 16, 19, 24, 32} {
			r = append(r, w+d)
		}
	}
	return r
}()

// lengthGrid enumerates every key, KSN, ciphertext, IV, PIN and PAN length of
// every function.
func lengthGrid(yield func(Call) bool) {
	p := mixer("lengthgrid")
	base := map[string]Call{}
	for _, fn := range []string{"des.ik", "des.tk", "des.encpin", "des.decpin", "des.mac", "des.enc", "des.dec",
		"aes.ik", "aes.tk", "aes.encpin", "aes.decpin", "aes.cmac", "aes.hmac", "aes.enc", "aes.dec",
		"ksn.desnext", "ksn.aesnext", "ksn.destc", "ksn.aestc", "ksn.aesvalid"} {
		base[fn] = Call{Fn: fn}
		kls, nl, bs := []int{16}, 10, 8
		if fn[:3] == "aes" {
			kls, nl, bs = []int{16, 24, 32}, 12, 16
		}
		if fn == "ksn.aesnext" || fn == "ksn.aestc" || fn == "ksn.aesvalid" {
			nl = 12
		}
		fmts := []string{""}
		if fn == "des.encpin" || fn == "des.decpin" {
			fmts = append(append([]string{}, Formats...), "ISO-4")
		}
		for _, kl := range kls {
			for _, f := range fmts {
				mk := func() Call {
					return Call{Fn: fn, Key: p.bytes(kl), Ksn: p.bytes(nl), Msg: p.bytes(bs), IV: p.bytes(bs), Pin: Str(p.digits(4 + p.n(9))), Pan: Str(p.digits(13 + p.n(7))), Fmt: Str(f), Act: "request", Kt: ktOf(kl, fn == "aes.hmac")}
				}
				for _, n := range callLengths {
					for what := 0; what < 7; what++ {
						if n > 5000 && (f != "" && f != fmts[1+p.n(len(fmts)-1)] || n > 70000 && p.n(6) > 0) {
							continue
						}
						c := mk()
						switch what {
						case 0:
							c.Key = p.bytes(n)
						case 1:
							c.Ksn = p.bytes(n)
						case 2:
							c.Msg = p.bytes(n)
						case 3:
							c.IV = p.bytes(n)
						case 4:
							c.Pin = Str(p.digits(n))
						case 5:
							c.Pan = Str(p.digits(n))
						case 6: // a key of another length than its type
							c.Key = p.bytes([]int{16, 24, 32}[n%3])
						}
						if fn != "des.encpin" && fn != "des.decpin" && fn != "aes.encpin" && fn != "aes.decpin" && (what == 4 || what == 5) {
							continue
						}
						if fn[4:] != "decpin" || what == 2 {
							if !yield(c) {
								return
							}
							if what == 0 && fn[4:] == "tk" { // no derivation step is needed
								c.Ksn = append(Hex{}, c.Ksn...)
								clear(c.Ksn[nl-4:])
								if !yield(c) {
									return
								}
							}
							continue
						}
						for way := 0; way < 5; way++ {
							if c := buildNear(c, way, p.bytes(16)); !yield(c) {
								return
							}
						}
					}
				}
			}
		}
	}
}

// digitGrid has PINs and PANs close to ones of digits only. Blocks to decrypt
// are those of the digits.
func digitGrid(yield func(Call) bool) {
	p := mixer("digitgrid")
	clean := func(s string, n int) Str {
		s = strings.Map(func(r rune) rune {
			switch {
			case r >= '0' && r <= '9':
				return r
			case r >= 0xFF10 && r <= 0xFF19:
				return r - 0xFF10 + '0'
			case r >= 0x660 && r <= 0x669:
				return r - 0x660 + '0'
			}
			return -1
		}, s)
		return Str((s + "0123456789012")[:max(n, len(s))])
	}
	out := func(c Call) bool {
		if mustFail(&c) == "" {
			return true
		}
		return yield(c)
	}
	for rep := 0; rep < gridN(1, 4); rep++ {
		for _, f := range append(append([]string{}, Formats...), "aes") {
			mk := func(dec bool, pin, pan Str) Call {
				c := Call{Fn: "des.encpin", Key: p.bytes(16), Pin: pin, Pan: pan, Fmt: Str(f)}
				if f == "aes" {
					n := 16 + 8*p.n(3)
					c = Call{Fn: "aes.encpin", Key: p.bytes(n), Ksn: p.bytes(12), Pin: pin, Pan: pan, Kt: ktOf(n, false)}
				}
				if dec {
					d := c
					d.Fn, d.Fill, d.Pan = c.Fn[:4]+"decpin", p.bytes(16), clean(string(pan), 13)
					if f == "aes" {
						d.Fill = d.Fill[:8]
					}
					if len(d.Pan) > 19 {
						d.Pan = d.Pan[:19]
					}
					c.Fn, c.Msg = d.Fn, build(&d).Msg
				}
				return c
			}
			good := true
			pin := func(s string) bool {
				good = good && out(mk(false, Str(s), Str(p.digits(13+p.n(7)))))
				return good
			}
			pan := func(s string) bool {
				good = good && out(mk(false, Str(p.digits(4+p.n(9))), Str(s))) && out(mk(true, Str(p.digits(4+p.n(9))), Str(s)))
				return good
			}
			wordEdits([]string{"1234", p.digits(4 + p.n(8))}, pin)
			wordEdits([]string{"4012345678909", p.digits(13 + p.n(6))}, pan)
			for _, s := range oddPins {
				pin(s)
			}
			for _, s := range oddPans {
				pan(s)
			}
			if !good {
				return
			}
		}
	}
}

// pinBlockGrid decrypts blocks whose header nibbles take every value.
func pinBlockGrid(yield func(Call) bool) {
	p := mixer("pinblockgrid")
	for rep := 0; rep < gridN(1, 16); rep++ {
		for _, f := range append(append([]string{}, Formats...), "ISO-4") {
			for hd := 0; hd < 256; hd++ {
				key := Hex(p.bytes(16))
				blk := p.bytes(8)
				blk[0] = byte(hd)
				switch p.n(3) {
				case 0:
					for i := 1; i < 8; i++ {
						blk[i] = byte(p.n(10)<<4 | p.n(10))
					}
				case 1:
					for i := 1 + p.n(6); i < 8; i++ {
						blk[i] = 0xFF
					}
				}
				if !yield(Call{Fn: "des.decpin", Key: key, Msg: ref.TdesEnc(ref.DesPinKey(key), blk), Pan: Str(p.digits(13 + p.n(7))), Fmt: Str(f)}) {
					return
				}
			}
		}
		for hd := 0; hd < 256; hd++ {
			for _, n := range []int{16, 24, 32} {
				key, ksn, pan := Hex(p.bytes(n)), Hex(p.bytes(12)), p.digits(12+p.n(8))
				blk := p.bytes(16)
				blk[0] = byte(hd)
				w := ref.AesWorking(key, ksn, ref.UsePin, n, false)
				a := ref.AesEnc(w, blk)
				pb := ref.Iso4Pan(pan)
				for i := range a {
					a[i] ^= pb[i]
				}
				if !yield(Call{Fn: "aes.decpin", Key: key, Ksn: ksn, Msg: ref.AesEnc(w, a), Pan: Str(pan), Kt: ktOf(n, false)}) {
					return
				}
			}
		}
	}
}

func enumMalformed(name string, calls func(yield func(Call) bool)) *eng.Group {
	return eng.Enum(name, func(yield func(*Batch) bool) {
		i := 0
		calls(func(c Call) bool {
			i++
			if !eng.Mine(i) {
				return true
			}
			return yield(&Batch{Calls: []Call{c}})
		})
	}, checkMalformed)
}
