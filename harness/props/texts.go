package props

import (
	"strings"

	"verifharness/eng"
	"verifharness/ref"
)

// Texts that something other than plain bytes might be seen in: every one of a
// list goes through everything that takes text.

// oddPins and oddPans are close to ones of digits only.
var oddPins = []string{"1 2 3 4", "12 34", "1-2-3-4", "12-34", "\"1234\"", "'1234'", "(1234)", "[1234]", "1,234", "1.234", "1_234", "12:34", "+1234", "-1234", "0x1234", "x1234", "#1234#", "*1234#", "1234;", "1234=", "1234\r\n", "\t1234\t", "PIN 1234", "PIN:1234", "0b1010", "12e+4", "1234.0", "****", "????", "    ", "\x00\x00\x00\x00", "\x01\x02\x03\x04", "one234", "%31234", "1234%00", "\\x31\\x32", wide("1234", 0xFF10), wide("1234", 0x660), wide("1234", 0x6F0), wide("1234", 0x966), wide("123", 0x1D7CE), "\u00b9\u00b2\u00b3\u2074", "\u2460\u2461\u2462"}

var oddPans = []string{"4012 3456 7890 9", "4012-3456-7890-9", "4012.3456.7890.9", "4012_3456_7890_9", "401 234567 89012", "4012 345678 90123", "\"4012345678909\"", "'4012345678909'", "4012345678909=2512", "4012345678909D2512?", ";4012345678909=25?", "%B4012345678909^", " 4012345678909 ", "4012345678909\r\n", "\t4012345678909\t", "PAN4012345678909", "pan:4012345678909", "+4012345678909", "-4012345678909", "4012345678909.0", "4,012,345,678,909", "401234******8909", "401234XXXXXX8909", "4012345678909;", "4012345678909/1", "#4012345678909", "4012345678909\x00\x00", "\x004012345678909", "4.012345678909e12", "............."}

func wide(s string, zero rune) string {
	return strings.Map(func(r rune) rune { return r - '0' + zero }, s)
}

// textList has special texts of every kind.
func textList() (r []string) {
	seen := map[string]bool{"": true}
	add := func(l ...string) {
		for _, s := range l {
			if !seen[s] {
				seen[s] = true
				r = append(r, s)
			}
		}
	}
	for b := 0; b < 256; b++ {
		add(string([]byte{byte(b)}))
	}
	for _, w := range []string{"", "x", "/dev/null", "4142", "two words"} {
		for _, q := range []string{"@", "-", "--", "0x", "0X", "\\x", "#", "//", "file:", "file://", "hex:", "HEX:", "base64:", "text:", "data:", "data:,", "data:;base64,", "env:", "$", "$(", "${", "~/", "~", "!", "=", "+", "%", "&", "?", "/", "./", ":", ";", "|", "<", ">", ",", "*", "^", "(", "[", "{", "\ufeff", "0b", "0o", "b64:", "urn:", "utf8:", "null", "\x1b[", "\\", "x'", "h'", "json:", "str:", "string:", "bytes:", "raw:", "ascii:", "enc:", "v1:", "$2a$"} {
			add(q + w)
		}
		for _, q := range []string{"\"\"", "''", "``", "()", "[]", "{}", "<>", "\u201c\u201d", "\u2018\u2019", "\u00ab\u00bb", "%%", "$$", "**", "__", "::", "||", "##", "\x02\x03"} {
			h := len(q) / 2
			add(q[:h]+w+q[h:], q[:h]+w, w+q[h:])
		}
		for _, ws := range []string{" ", "\n", "\r\n", "\t", "  ", "\v", "\f", "\u00a0", "\u0085", "\u2028", "\u200b", "\x00", "\r", "\u3000", "\n\n", "\x1a", "\x04", "\x7f", "\x80", "\xff"} {
			add(ws+w, w+ws, ws+w+ws, w+ws+w)
		}
		for _, e := range []string{"\\n", "\\t", "\\\\", "\\x41", "\\u0041", "\\101", "\\0", "%41", "%20", "+", "&amp;", "&#65;", "%s", "%d", "%n", "%v%!", "$HOME", "${PATH}", "%PATH%", "{{.}}", "`id`", "$(id)", "\\", "=41", "=\n", "\\\"", "=", "==", ".", "..."} {
			add(e+w, w+e, w+e+w)
		}
	}
	add("true", "false", "True", "FALSE", "yes", "no", "on", "off", "undefined", "nil", "<nil>", "NaN", "Inf", "None", "0", "-0", "-1", "1e3", "0.5", "{}", "[]", "[null]", "EOF", "help", "-h", "-help", "--help", "request", "response", "cmac", "hmac", "des", "aes", "AES128", "ISO-0", "dukpt", "empty", "test", "admin", "RESULT: 00", "default", "stdin", "/dev/stdin")
	add("%B4012345678909^DOE/JOHN^25121011?", ";4012345678909=25121011000?", "4012345678909D987", "<a b=\"c\">x</a>", "https://example.com/?a=1&b=c#d", "../../etc/passwd", "C:\\x", "a=1&b=2", "<!-- x -->", "; DROP TABLE x;--", `{"pin":"1234"}`, `[1,"a"]`, `"x`, `{"error":"x"}`, `{"data":null}`)
	add("e\u0301", "\u0130", "\u00df", "\u1e9e", "\ufb01", "\U0001f600", "\U0010ffff", "\ufffd", "\ufffe", "\u202e", "\u0661", "\uff11", "\u212a", "\u00b5", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xc0\x80", "\xed\xa0\x80", "\xff\xfe", "\xfe\xff", "\xff\xfea\x00", "\x1f\x8b\x08\x00", "PK\x03\x04", "\x00\x00\xfe\xff")
	add(oddPins...)
	add(oddPans...)
	for n := 1; n <= 33; n++ { // blocks of one byte, padded blocks, hex and base64
		z := strings.Repeat("\x00", n)
		add(z, strings.Repeat("0", n), strings.Repeat(" ", n), strings.Repeat("\xff", n), "x"+z, z+"x", "x\x80"+z, "x"+strings.Repeat(string([]byte{byte(n)}), n), strings.Repeat("41", n), strings.Repeat("QUFB", n), strings.Repeat("A", n)+"=", strings.Repeat("%41", n))
	}
	return r
}

// textGrid sends every text of the list through functions that take one.
func textGrid(fns ...string) func(yield func(Call) bool) {
	return func(yield func(Call) bool) {
		p := mixer("textgrid" + strings.Join(fns, ""))
		for _, s := range textList() {
			for _, fn := range fns {
				if c := textCall(p, fn, s); !yield(c) {
					return
				}
			}
		}
	}
}

// textCall is a call that takes or (decryption) returns a text.
func textCall(p *prng, fn, s string) Call {
	c := Call{Fn: fn, Key: p.bytes(16), Msg: Hex(s), Act: []Str{"request", "response"}[p.n(2)], IV: p.bytes(1 + p.n(20))}
	if fn[:3] == "aes" {
		n := 16 + 8*p.n(3)
		c.Key, c.Ksn, c.Kt = p.bytes(n), p.bytes(12), ktOf(n, fn == "aes.hmac")
	}
	switch fn {
	case "des.mac", "aes.cmac", "aes.hmac":
		c.IV = nil
	case "des.dec":
		c.Msg = ref.DesEncData(c.Key, c.IV, c.Msg, resp(c.Act))
	case "aes.dec":
		c.Msg = ref.AesEncData(c.Key, c.Ksn, c.IV, c.Msg, resp(c.Act))
	}
	return c
}

// unifiedTexts does the same for the unified calls.
func unifiedTexts(yield func(*Unified) bool) {
	i := 0
	textGrid("des.mac", "des.enc", "des.dec", "aes.cmac", "aes.hmac", "aes.enc", "aes.dec")(func(c Call) bool {
		i++
		return !eng.Mine(i) || yield(&Unified{Call: c, Case: make([]int, len(hexParams(c.Fn)))})
	})
}

// unifiedLong has long texts.
func unifiedLong(yield func(*Unified) bool) {
	p := mixer("unifiedlong")
	i := 0
	for b := 9; b <= gridN(17, 20); b++ {
		for _, d := range []int{-1, 0, 1, 8, 16, 24} {
			for _, fn := range []string{"des.mac", "des.enc", "des.dec", "aes.cmac", "aes.hmac", "aes.enc", "aes.dec"} {
				c := longCall(p, fn, 1<<b+d)
				if i++; !eng.Mine(i) {
					continue
				}
				if !yield(&Unified{Call: c, Case: make([]int, len(hexParams(fn)))}) {
					return
				}
			}
		}
	}
}

func longCall(p *prng, fn string, n int) Call {
	if fn[4:] == "dec" {
		n &^= 15
	}
	c := Call{Fn: fn, Key: p.bytes(16), Msg: cycle([][]byte{{'0'}, []byte("abcdefg"), []byte(p.digits(40))}[p.n(3)], n), Act: []Str{"request", "response"}[p.n(2)], IV: p.bytes(8 + 8*p.n(2))}
	if fn[:3] == "aes" {
		c.Ksn, c.Kt = p.bytes(12), ktOf(16, fn == "aes.hmac")
	}
	return c
}

// cliLong has arguments of up to the 128 KiB that an argument may have.
func cliLong(yield func(*Cli) bool) {
	p := mixer("clilong")
	i := 0
	for b := 9; b <= 17; b++ {
		for _, d := range []int{-40, -1, 0, 1, 8, 16} {
			for _, fn := range []string{"des.mac", "des.enc", "aes.cmac", "aes.hmac", "aes.enc", "des.dec", "aes.dec"} {
				n := 1<<b + d
				if n > 131000 {
					n = 131000
				}
				switch fn[4:] {
				case "dec":
					n /= 2
				case "enc": // what comes out is the argument of another run
					n = min(n, 65000)
				}
				c := longCall(p, fn, n)
				if i++; !eng.Mine(i) || b == 17 && d > -40 {
					continue
				}
				kt := strings.ToLower(string(ktOf(len(c.Key), false)))
				var args []Str
				for _, q := range cliParams(&c, kt) {
					args = append(args, Str("-"+q.name+"="+q.value))
				}
				if !yield(&Cli{Args: args, Want: "result", Call: &c, How: kt}) {
					return
				}
			}
		}
	}
}

// cliTexts gives the texts to the commands of the command line.
func cliTexts(yield func(*Cli) bool) {
	p := mixer("clitexts")
	i := 0
	fns := []string{"des.mac", "des.enc", "aes.cmac", "aes.hmac", "aes.enc", "des.dec", "aes.dec"}
	for _, s := range textList() {
		if strings.Contains(s, "\x00") {
			continue
		}
		// one of the MACs, encryptions and decryptions each
		l := []string{[]string{"des.mac", "aes.cmac", "aes.hmac"}[p.n(3)], []string{"des.enc", "aes.enc"}[p.n(2)], []string{"des.dec", "aes.dec"}[p.n(2)]}
		if !eng.Quick() {
			l = fns
		}
		for _, fn := range l {
			c := textCall(p, fn, s)
			if i++; !eng.Mine(i) {
				continue
			}
			kt := strings.ToLower(string(ktOf(len(c.Key), false)))
			var args []Str
			for _, q := range cliParams(&c, kt) {
				if p.n(2) == 0 && !q.exec {
					args = append(args, Str("-"+q.name), Str(q.value))
				} else {
					args = append(args, Str("-"+q.name+"="+q.value))
				}
			}
			if !yield(&Cli{Args: args, Want: "result", Call: &c, How: kt}) {
				return
			}
		}
	}
}

// cliWords gives the command line PINs, PANs and words close to good ones.
func cliWords(yield func(*Cli) bool) {
	p := mixer("cliwords")
	i := 0
	good := true
	out := func(c Call, set func(name, value string) string) {
		if i++; !good || !eng.Mine(i) {
			return
		}
		kt := strings.ToLower(string(ktOf(len(c.Key), false)))
		var args []Str
		for _, q := range cliParams(&c, kt) {
			if set != nil {
				q.value = set(q.name, q.value)
			}
			if strings.Contains(q.value, "\x00") {
				return
			}
			args = append(args, Str("-"+q.name+"="+q.value))
		}
		good = yield(&Cli{Args: args, Want: "refusal", Why: "close to a good word"})
	}
	// a part of the many calls
	some := func(k int) func(c Call) bool {
		n := p.n(k)
		return func(c Call) bool {
			if n++; n%k == 0 && mustFail(&c) != "" && c.Fn != "aes.hmac" {
				c.Kt = ktOf(len(c.Key), false)
				out(c, nil)
			}
			return good
		}
	}
	digitGrid(some(gridN(97, 7)))
	n := 0
	odd := func(fn, flag string, ok func(s string) bool, words []string) {
		k := gridN(11, 1)
		wordEdits(words, func(s string) bool {
			if n++; n%k != p.n(k) || ok(s) || len(s) > 1<<12 {
				return good
			}
			c := textCall(p, fn, "text")
			c.Pin, c.Pan, c.Fmt = Str(p.digits(5)), Str(p.digits(15)), "ISO-0"
			out(c, func(name, value string) string {
				if name == flag {
					return s
				}
				return value
			})
			return good
		})
	}
	in := func(l ...string) func(s string) bool {
		return func(s string) bool {
			for _, w := range l {
				if s == w {
					return true
				}
			}
			return false
		}
	}
	fold := func(l ...string) func(s string) bool {
		return func(s string) bool {
			for _, w := range l {
				if strings.EqualFold(s, w) {
					return true
				}
			}
			return !ascii(Str(s)) // how other letters fold is not specified
		}
	}
	odd("des.mac", "gm.action", in(actions...), actions)
	odd("aes.cmac", "gm.action", in(actions...), actions)
	odd("aes.hmac", "gm.type", in(macTypes...), macTypes)
	odd("des.enc", "algorithm", in(algs...), algs)
	odd("aes.enc", "algorithm.key_type", fold(keyTypes...), []string{"aes128", "aes192", "aes256"})
	odd("des.encpin", "ep.format", fold(append([]string{"ISO-4"}, Formats...)...), Formats)
}

// longGrid has messages of lengths around powers of two up to some millions of
// bytes, of one byte or a few again and again.
func longGrid(fns ...string) func(yield func(Call) bool) {
	return func(yield func(Call) bool) {
		p := mixer("longgrid" + strings.Join(fns, ""))
		for b := 10; b <= gridN(21, 24); b++ {
			for _, d := range []int{-17, -16, -9, -8, -1, 0, 1, 8, 15, 16, 17} {
				for _, fn := range fns {
					for k := 0; k < 3; k++ {
						if b > 17 && k != p.n(3) { // one of them
							continue
						}
						n := 1<<b + d
						if fn[4:] == "dec" {
							n &^= 15
						}
						unit := [][]byte{{0}, {byte(p.n(256))}, p.bytes(2 + p.n(20))}[k]
						c := Call{Fn: fn, Key: p.bytes(16), Msg: cycle(unit, n), Act: []Str{"request", "response"}[p.n(2)]}
						if fn[:3] == "aes" {
							c.Ksn, c.Kt = p.bytes(12), ktOf(16, fn == "aes.hmac")
						}
						if !yield(c) {
							return
						}
					}
				}
			}
		}
	}
}
