package props

import (
	"strings"

	"verifharness/eng"
	"verifharness/ref"
)

// The words with a meaning in calls: formats, key types, MAC types, actions,
// algorithms. A text close to one of them must not be taken for it.

// editTexts are what an edit inserts or puts in the place of a character.
var editTexts = func() (r []string) {
	for b := 0; b < 0x80; b++ {
		r = append(r, string(rune(b)))
	}
	return append(r, "\u00a0", "\ufeff", "\u200b", "\u00ad", "\u2010", "\u2013", "\uff10", "\u0660", "\u00df", "\u0130", "\u0131", "\u017f", "\u212a", "\xff", "\x80", "\r\n")
}()

// edit changes a word at one place.
func edit(w string, kind, at int, text string) string {
	switch kind % 5 {
	case 0: // insert
		at %= len(w) + 1
		return w[:at] + text + w[at:]
	case 1: // replace
		at %= len(w)
		return w[:at] + text + w[at+1:]
	case 2: // delete
		at %= len(w)
		return w[:at] + w[at+1:]
	case 3: // swap
		if len(w) > 1 {
			at %= len(w) - 1
			return w[:at] + w[at+1:at+2] + w[at:at+1] + w[at+2:]
		}
	case 4: // double
		at %= len(w)
		return w[:at] + w[at:at+1] + w[at:]
	}
	return w + w
}

// wordEdits yields every text that is one edit away from a word.
func wordEdits(words []string, yield func(string) bool) {
	seen := map[string]bool{}
	out := func(s string) bool {
		if seen[s] {
			return true
		}
		seen[s] = true
		return yield(s)
	}
	for _, w := range words {
		for at := 0; at <= len(w); at++ {
			for _, t := range editTexts {
				if !out(edit(w, 0, at, t)) || at < len(w) && !out(edit(w, 1, at, t)) {
					return
				}
			}
			if at < len(w) && !(out(edit(w, 2, at, "")) && out(edit(w, 3, at, "")) && out(edit(w, 4, at, ""))) {
				return
			}
		}
		for _, v := range words {
			for _, sep := range []string{"", " ", ",", "|", "+", "/", ";", "\x00"} {
				if !out(w + sep + v) {
					return
				}
			}
		}
		for _, s := range []string{"\"" + w + "\"", "'" + w + "'", "[" + w + "]", strings.Repeat(w, 3), strings.ToLower(w), strings.ToUpper(w), strings.ToUpper(w[:1]) + strings.ToLower(w[1:]), strings.Repeat(" ", 300) + w, w + strings.Repeat("\x00", 300), w + strings.Repeat("x", 1<<16)} {
			if !out(s) {
				return
			}
		}
	}
	out("")
}

// nearWord is a text one edit away from one of the words.
func (g G) nearWord(words ...string) string {
	p := g.seed()
	w := words[p.n(len(words))]
	return edit(w, p.n(5), p.n(len(w)+1), editTexts[p.n(len(editTexts))])
}

var (
	keyTypes  = []string{"AES128", "AES192", "AES256"}
	hmacTypes = []string{"HMAC128", "HMAC192", "HMAC256"}
	actions   = []string{"request", "response"}
	macTypes  = []string{"cmac", "hmac"}
	algs      = []string{"des", "aes"}
	allWords  = append(append(append(append(append([]string{"ISO-4"}, Formats...), keyTypes...), hmacTypes...), actions...), macTypes...)
)

// wordGrid enumerates the calls of the library with a text near a format or
// key type.
func wordGrid(yield func(Call) bool) {
	p := mixer("wordgrid")
	wordEdits(append(append([]string{}, Formats...), "ISO-4"), func(s string) bool {
		for _, f := range []string{"ISO-0", "ISO-1", "ISO-3"} { // what a block for the name could be
			c := Call{Fn: "des.decpin", Key: p.bytes(16), Pin: Str(p.digits(4)), Pan: Str(p.digits(13)), Fmt: Str(f), Fill: p.bytes(8)}
			c = build(&c)
			c.Fmt, c.Fill = Str(s), nil
			if !yield(c) {
				return false
			}
		}
		return yield(Call{Fn: "des.encpin", Key: p.bytes(16), Pin: Str(p.digits(4)), Pan: Str(p.digits(13)), Fmt: Str(s)})
	})
	for i := range keyTypes {
		n := 16 + 8*i
		for _, fn := range []string{"aes.encpin", "aes.decpin", "aes.cmac", "aes.hmac", "aes.enc", "aes.dec"} {
			words := keyTypes
			if fn == "aes.hmac" {
				words = hmacTypes
			}
			wordEdits(words[i:i+1], func(s string) bool {
				c := Call{Fn: fn, Key: p.bytes(n), Ksn: p.bytes(12), Msg: p.bytes(16), IV: p.bytes(16), Pin: Str(p.digits(4)), Pan: Str(p.digits(13)), Act: "request"}
				if fn == "aes.decpin" {
					c.Msg = ref.Iso4Encode(ref.AesWorking(c.Key, c.Ksn, ref.UsePin, n, false), string(c.Pin), string(c.Pan), p.bytes(8))
				}
				c.Kt = Str(s)
				return yield(c)
			})
		}
	}
}

// actionGrid enumerates calls with an action near a documented one.
func actionGrid(fns ...string) func(yield func(Call) bool) {
	return func(yield func(Call) bool) {
		p := mixer("actiongrid" + strings.Join(fns, ""))
		wordEdits(actions, func(s string) bool {
			for _, fn := range fns {
				c := Call{Fn: fn, Key: p.bytes(16), Msg: p.bytes(16), Act: Str(s)}
				if fn[:3] == "aes" {
					n := 16 + 8*p.n(3)
					c.Key, c.Ksn, c.Kt = p.bytes(n), p.bytes(12), ktOf(n, fn == "aes.hmac")
				}
				if !yield(c) {
					return false
				}
			}
			return true
		})
	}
}

// unifiedGrid enumerates unified calls with a text near one of a meaning.
func unifiedGrid(yield func(*Unified) bool) {
	i := 0
	out := func(u Unified) bool {
		i++
		return !eng.Mine(i) || yield(&u)
	}
	p := mixer("unifiedgrid")
	wordEdits(algs, func(s string) bool { return out(Unified{Alg: Str(s)}) })
	wordEdits(macTypes, func(s string) bool {
		n := 16 + 8*p.n(3)
		u := Unified{Call: Call{Fn: "aes.cmac", Key: p.bytes(n), Ksn: p.bytes(12), Msg: p.bytes(9), Act: "request", Kt: ktOf(n, false)}, Mac: Str(s)}
		if s == "hmac" {
			u.Call.Fn, u.Call.Kt = "aes.hmac", ktOf(n, true)
		}
		u.Case = make([]int, len(hexParams(u.Call.Fn)))
		return s == "" || out(u)
	})
	wordEdits(actions, func(s string) bool {
		for _, fn := range []string{"des.mac", "des.enc", "des.dec", "aes.cmac", "aes.hmac", "aes.enc", "aes.dec"} {
			c := Call{Fn: fn, Key: p.bytes(16), Msg: p.bytes(16), Act: Str(s)}
			if fn[:3] == "aes" {
				c.Ksn, c.Kt = p.bytes(12), ktOf(16, fn == "aes.hmac")
			}
			if !out(Unified{Call: c, Case: make([]int, len(hexParams(fn)))}) {
				return false
			}
		}
		return true
	})
}

// unifiedNames enumerates the unified PIN, MAC and data calls with a text near
// a PIN block format, key type, PIN or PAN.
func unifiedNames(yield func(*Unified) bool) {
	i := 0
	good := true
	one := func(c Call) bool {
		if i++; !eng.Mine(i) || mustFail(&c) == "" || c.Fn == "aes.hmac" || c.Fn[:3] == "aes" && c.Kt == "" {
			return true
		}
		u := Unified{Call: c, Case: make([]int, len(hexParams(c.Fn)))}
		good = yield(&u)
		return good
	}
	wordGrid(one)
	if good {
		digitGrid(one)
	}
}

// fit brings b to length n in one of the ways in which a careless
// implementation would.
func fit[T ~string | ~[]byte](b T, n, way int, zero byte) T {
	s := string(b)
	z := strings.Repeat(string(rune(zero)), n)
	switch {
	case way&1 == 0 && len(s) >= n:
		s = s[:n]
	case way&1 == 0 && way&2 == 0 || len(s) == 0:
		s = (s + z)[:n]
	case way&1 == 0:
		s = strings.Repeat(s, n/len(s)+1)[:n]
	case len(s) >= n:
		s = s[len(s)-n:]
	default:
		s = (z + s)[len(s):]
	}
	return T(s)
}

// nearFormat is the format whose name is closest.
func nearFormat(f string) string {
	f = strings.ToUpper(f)
	best, at := "", 0
	for _, w := range Formats {
		d := 0 // characters in common, in order, and the length
		i := 0
		for j := 0; j < len(f) && j < 64; j++ {
			if i < len(w) && f[j] == w[i] {
				i, d = i+1, d+2
			} else {
				d--
			}
		}
		d -= len(w) - i
		if best == "" || d > at {
			best, at = w, d
		}
	}
	return best
}

// buildNear is the PIN decryption c with a block that would open if the
// arguments were brought into shape instead of being refused.
func buildNear(c Call, way int, fill Hex) Call {
	d := c
	d.Fill = fill
	if !digits(d.Pin) || len(d.Pin) < 4 || len(d.Pin) > 12 {
		d.Pin = "1234"
	}
	if !digits(d.Pan) { // without what is no digit
		d.Pan = Str(strings.Map(func(r rune) rune {
			if r < '0' || r > '9' {
				return -1
			}
			return r
		}, string(d.Pan)))
	}
	switch c.Fn {
	case "des.decpin":
		d.Key = fit(c.Key, 16, way, 0)
		if len(d.Pan) < 13 || len(d.Pan) > 19 {
			d.Pan = fit(d.Pan, 13, way, '0')
		}
		if f := ref.Family(strings.ToUpper(string(d.Fmt))); f == "" || f == "iso4" {
			d.Fmt = Str(nearFormat(string(d.Fmt)))
		}
	case "aes.decpin":
		n := 16
		for i := range keyTypes {
			if c.Kt == ktOf(16+8*i, false) {
				n = 16 + 8*i
			}
		}
		if way&4 != 0 && aesLenOK(len(c.Key)) {
			n = len(c.Key)
		}
		d.Key = fit(c.Key, n, way, 0)
		d.Ksn = fit(c.Ksn, 12, way, 0)
		if len(d.Pan) < 12 || len(d.Pan) > 19 {
			d.Pan = fit(d.Pan, 12, way, '0')
		}
		d.Fill = fit(fill, 8, 0, 0)
	default:
		return c
	}
	c.Msg, c.Fill = build(&d).Msg, nil
	return c
}
