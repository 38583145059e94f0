package props

import (
	"encoding/base64"
	"encoding/hex"
	"math/bits"
	"strings"

	"verifharness/eng"

	"pgregory.net/rapid"
)

// prng expands drawn seeds; it is a pure function of what rapid drew.
type prng struct{ s uint64 }

func (p *prng) next() uint64 {
	p.s += 0x9E3779B97F4A7C15
	z := p.s
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

func (p *prng) n(n int) int { return int(p.next() % uint64(n)) }

func (p *prng) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(p.next() >> 24)
	}
	return b
}

func (p *prng) digits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + p.n(10))
	}
	return string(b)
}

// G wraps a rapid.T with unlabelled draws.
type G struct{ t *rapid.T }

var u64 = rapid.Uint64()

func (g G) seed() *prng {
	a := u64.Draw(g.t, "s")
	b := u64.Draw(g.t, "s")
	return &prng{a ^ bits.RotateLeft64(b*0x9E3779B97F4A7C15, 31)}
}

// n is roughly uniform over 0..n-1 (rapid favours small values, so a second
// draw is mixed in), and shrinks to 0.
func (g G) n(n int) int {
	if n <= 1 {
		return 0
	}
	v := rapid.IntRange(0, n*8-1).Draw(g.t, "n")
	return v % n
}

// small is a number in lo..hi with rapid's bias to lo.
func (g G) small(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(g.t, "n") }

func (g G) bool() bool { return rapid.Bool().Draw(g.t, "b") }

// one in k
func (g G) one(k int) bool { return g.n(k) == k-1 }

func pick[T any](g G, xs ...T) T { return xs[g.n(len(xs))] }

func (g G) ubytes(n int) []byte { return g.seed().bytes(n) }

var weakDes = [][]byte{
	{1, 1, 1, 1, 1, 1, 1, 1}, {0xFE, 0xFE, 0xFE, 0xFE, 0xFE, 0xFE, 0xFE, 0xFE},
	{0xE0, 0xE0, 0xE0, 0xE0, 0xF1, 0xF1, 0xF1, 0xF1}, {0x1F, 0x1F, 0x1F, 0x1F, 0x0E, 0x0E, 0x0E, 0x0E},
	{0xC0, 0xC0, 0xC0, 0xC0, 0, 0, 0, 0}, {0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF}, {0, 0, 0, 0, 0, 0, 0, 0},
}

// bytesN: n bytes of varied shape.
func (g G) bytesN(n int) []byte {
	switch g.n(13) {
	default:
		return g.ubytes(n)
	case 1:
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(g.t, "bytes")
	case 2: // one repeated byte
		return []byte(strings.Repeat(string([]byte{g.byteVal()}), n))
	case 3: // a repeated half
		h := g.ubytes((n + 1) / 2)
		return append(append([]byte{}, h...), h...)[:n]
	case 4: // weak DES halves
		b := []byte{}
		for len(b) < n {
			b = append(b, pick(g, weakDes...)...)
		}
		return b[:n]
	case 5: // odd or even parity everywhere
		b := g.ubytes(n)
		odd := g.bool()
		for i := range b {
			if (bits.OnesCount8(b[i])%2 == 1) != odd {
				b[i] ^= 1
			}
		}
		return b
	case 6: // sparse
		b := make([]byte, n)
		for i := g.n(3); i >= 0 && n > 0; i-- {
			p := g.n(n)
			b[p] = g.byteVal()
		}
		return b
	case 7: // zero or FF runs at the ends
		b := g.ubytes(n)
		v := byte(0)
		if g.bool() {
			v = 0xFF
		}
		k := g.n(n + 1)
		if g.bool() {
			for i := 0; i < k; i++ {
				b[i] = v
			}
		} else {
			for i := n - k; i < n; i++ {
				b[i] = v
			}
		}
		return b
	case 8: // runs at both ends
		b := g.ubytes(n)
		ends := pick(g, [2]byte{0, 0}, [2]byte{0, 0}, [2]byte{0xFF, 0xFF}, [2]byte{0, 0xFF}, [2]byte{0x20, 0x20}, [2]byte{'0', '0'})
		i, j := g.n(n+1), g.n(n+1)
		for k := range b {
			if k < i {
				b[k] = ends[0]
			} else if k >= n-j {
				b[k] = ends[1]
			}
		}
		return b
	case 9: // what looks like padding
		b := g.ubytes(n)
		k := g.n(n + 1)
		kind := g.n(3)
		for i := n - k; i < n; i++ {
			switch kind {
			case 0:
				b[i] = byte(k)
			case 1:
				b[i] = 0
			default:
				b[i] = byte(i - (n - k) + 1)
			}
		}
		if k > 0 && kind == 1 {
			b[n-k] = 0x80
		}
		return b
	}
}

func (g G) byteVal() byte {
	if g.bool() {
		return pick[byte](g, 0, 1, 0x0F, 0x10, 0x1F, 0x20, 0x3F, 0x40, 0x7F, 0x80, 0x81, 0xC0, 0xE0, 0xF0, 0xFE, 0xFF)
	}
	if g.one(3) {
		return byte(g.dictInt(255))
	}
	return byte(g.seed().next())
}

// key of n bytes; prev are keys of earlier calls to be close to.
func (g G) key(n int, prev ...Hex) Hex {
	var same []Hex
	for _, p := range prev {
		if len(p) == n {
			same = append(same, p)
		}
	}
	if len(same) > 0 && g.n(3) != 0 {
		k := append(Hex{}, pick(g, same...)...)
		switch g.n(6) {
		case 1: // one bit
			p := g.n(n)
			k[p] ^= 1 << g.n(8)
		case 2: // one byte
			k[g.n(n)] = g.byteVal()
		case 3: // halves swapped
			k = append(append(Hex{}, k[n/2:]...), k[:n/2]...)
		case 4: // other second half
			copy(k[n/2:], g.ubytes(n-n/2))
		}
		return k
	}
	switch {
	case n == 16 && g.one(12):
		return Hex{0x01, 0x23, 0x45, 0x67, 0x89, 0xAB, 0xCD, 0xEF, 0xFE, 0xDC, 0xBA, 0x98, 0x76, 0x54, 0x32, 0x10}
	}
	return g.bytesN(n)
}

// counter of the given width: every class of counter that DUKPT treats
// differently.
func (g G) counter(width, max int) uint32 {
	mask := uint32(uint64(1)<<width - 1)
	sp := func(ones int) uint32 { // exactly ones bits
		p := g.seed()
		v := uint32(0)
		for bits.OnesCount32(v) < ones {
			v |= 1 << p.n(width)
		}
		return v
	}
	top := mask &^ (1<<(width-max) - 1)
	switch g.n(16) {
	case 0:
		return uint32(g.small(0, 64)) & mask
	case 1:
		return 1 << g.n(width)
	case 2:
		return sp(2)
	case 3:
		return sp(max)
	case 4:
		return sp(max - 1)
	case 5:
		return sp(max + 1 + g.n(width-max))
	case 6:
		return uint32(uint64(1)<<g.n(width+1)-1) & mask
	case 7:
		return mask &^ uint32(uint64(1)<<g.n(width+1)-1)
	case 8:
		return uint32(int64(top)+int64(g.n(9))-4) & mask
	case 9:
		return uint32(g.dictInt(uint64(mask))) & mask
	case 10: // a run of ones
		a := g.n(width)
		l := 1 + g.n(width-a)
		return uint32((uint64(1)<<l-1)<<a) & mask
	case 11: // near a carry
		return (1<<g.n(width) - 1 + uint32(g.n(3)) - 1) & mask
	case 12: // valid below the top
		v := sp(max)
		for v&1 == 0 && g.bool() {
			v |= 1
		}
		return v & mask
	case 13: // prefix of ones and random tail
		k := g.n(max + 1)
		return (mask&^(mask>>k) | uint32(g.seed().next())&(mask>>k)) & mask
	default:
		return uint32(g.seed().next()) & mask
	}
}

func (g G) counter21() uint32 { return g.counter(21, 10) }
func (g G) counter32() uint32 { return g.counter(32, 16) }

// dictInt is a literal of the source code or close to one, up to max.
func (g G) dictInt(max uint64) uint64 {
	d := eng.TheDict().Ints
	hi := len(d)
	for hi > 0 && d[hi-1] > max {
		hi--
	}
	if hi == 0 {
		return 0
	}
	v := d[g.n(hi)]
	switch g.n(4) {
	case 1:
		if v < max {
			v++
		}
	case 2:
		if v > 0 {
			v--
		}
	}
	return v
}

func (g G) dictStr() string {
	d := eng.TheDict().Strs
	return d[g.n(len(d))]
}

// desKsn with the given length.
func (g G) desKsnLen(n int, prev ...Hex) Hex {
	var k Hex
	if len(prev) > 0 && g.n(3) != 0 {
		p := pick(g, prev...)
		k = make(Hex, n)
		if len(p) <= n {
			for i := range k {
				k[i] = 0xFF
			}
			copy(k[n-len(p):], p)
		} else {
			copy(k, p[len(p)-n:])
		}
		switch g.n(5) {
		case 1:
			k[g.n(n)] ^= 1 << g.n(8)
			return k
		case 2: // the three rightmost device bits share a byte with the counter
			if n >= 3 {
				k[n-3] ^= 0x20 << g.n(3)
			}
			return k
		case 3:
			return k
		}
	} else {
		k = g.bytesN(n)
	}
	if n >= 3 {
		c := g.counter21()
		k[n-3] = k[n-3]&0xE0 | byte(c>>16)
		k[n-2], k[n-1] = byte(c>>8), byte(c)
	}
	return k
}

func (g G) desKsn(prev ...Hex) Hex {
	n := 10
	if g.n(3) == 0 {
		n = 4 + g.n(7)
	}
	return g.desKsnLen(n, prev...)
}

func (g G) aesKsn(prev ...Hex) Hex {
	var k Hex
	if len(prev) > 0 && g.n(3) != 0 {
		k = append(Hex{}, pick(g, prev...)...)
		for len(k) < 12 {
			k = append(k, 0)
		}
		k = k[:12]
		switch g.n(4) {
		case 1:
			k[g.n(12)] ^= 1 << g.n(8)
			return k
		case 2:
			return k
		}
	} else {
		k = g.bytesN(12)
	}
	c := g.counter32()
	k[8], k[9], k[10], k[11] = byte(c>>24), byte(c>>16), byte(c>>8), byte(c)
	return k
}

// longMsg is a message of up to 2 MiB, mostly of repeated text so that the case
// stays small.
func (g G) longMsg(text bool) Hex {
	p := g.seed()
	n := 1<<(10+p.n(12)) + p.n(1<<10) - 1<<9
	if p.n(3) == 0 {
		n = n * (8 + p.n(8)) / 8
	}
	if n > 2<<20 {
		n = 2 << 20
	}
	if !text && p.n(8) == 0 && n < 1<<18 {
		return p.bytes(n)
	}
	b := p.bytes(1 + p.n(40))
	if text || p.n(2) == 0 {
		for i := range b {
			b[i] = 32 + b[i]%95
		}
	}
	return cycle(b, n)
}

// msgLen favours block boundaries.
func (g G) msgLen(bs int) int {
	switch g.n(12) {
	case 0:
		return g.small(0, 3*bs)
	case 1, 2:
		v := bs*g.n(12) + g.n(3) - 1
		if v < 0 {
			v = 0
		}
		return v
	case 3:
		return g.n(600)
	case 4:
		v := 1<<g.n(13) + g.n(3) - 1
		return v
	case 5:
		return int(g.dictInt(3000))
	case 6:
		if g.one(40) {
			return int(g.dictInt(140000))
		}
		if g.one(40) {
			return 60000 + g.n(12000)
		}
		return g.n(2000)
	default:
		return g.n(5 * bs)
	}
}

// content of n bytes.
func (g G) content(n int) []byte {
	if n == 0 {
		return []byte{}
	}
	switch g.n(10) {
	case 0:
		return []byte(strings.Repeat("0", n))
	case 1:
		p := g.seed()
		return []byte(p.digits(n))
	case 2: // printable
		p := g.seed()
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(32 + p.n(95))
		}
		return b
	case 3:
		return make([]byte, n)
	case 4: // ends in zero bytes
		b := g.ubytes(n)
		for i := n - 1 - g.n(n); i < n; i++ {
			b[i] = 0
		}
		return b
	case 5: // ends like a padding
		b := g.ubytes(n)
		b[n-1] = pick[byte](g, 0x80, 1, 8, 16, 0x20, 0xFF)
		return b
	case 6: // repeated block
		blk := g.ubytes(8 + 8*g.n(2))
		b := []byte{}
		for len(b) < n {
			b = append(b, blk...)
		}
		return b[:n]
	case 7: // text of the code
		b := []byte{}
		for len(b) < n {
			b = append(b, g.dictStr()...)
			b = append(b, ' ')
		}
		return b[:n]
	default:
		return g.ubytes(n)
	}
}

func (g G) msg(bs int, prev ...Hex) Hex {
	if len(prev) > 0 && g.n(3) == 0 {
		m := append(Hex{}, pick(g, prev...)...)
		switch g.n(4) {
		case 1:
			if len(m) > 0 {
				m[g.n(len(m))] ^= 1 << g.n(8)
			}
		case 2:
			if len(m) > 0 {
				m = m[:g.n(len(m))]
			}
		case 3:
			m = append(m, g.content(1+g.n(2*bs))...)
		}
		return m
	}
	if p := g.seed(); p.n(4000) == 0 {
		return g.longMsg(false)
	} else if p.n(8) == 0 {
		return Hex(specialText(p))
	}
	return g.content(g.msgLen(bs))
}

// specialText is text that something other than plain bytes might be seen in.
func specialText(p *prng) string {
	word := func() string {
		switch p.n(4) {
		case 0:
			return p.digits(1 + p.n(20))
		case 1:
			return hex.EncodeToString(p.bytes(1 + p.n(24)))
		case 2:
			return []string{"", "a", "data", "value", "request", "true", "/etc/hosts", "1"}[p.n(8)]
		}
		b := p.bytes(1 + p.n(30))
		for i := range b {
			b[i] = 32 + b[i]%95
		}
		return string(b)
	}
	w := word()
	switch p.n(20) {
	case 0, 1: // quoted
		q := []string{"\"\"", "''", "``", "()", "[]", "{}", "<>", "\u201c\u201d", "\u00ab\u00bb", "%%", "$$", "**"}[p.n(12)]
		h := len(q) / 2
		return q[:h] + w + q[h:]
	case 2, 3: // prefix with a meaning elsewhere
		return []string{"@", "-", "--", "0x", "0X", "\\x", "#", "//", "file:", "file://", "hex:", "base64:", "text:", "data:,", "env:", "$", "~/", "!", "=", "+", "%", "&", "?", "/", "./", ":", ";", "|", "\ufeff", "0b", "b64:", "urn:", "null", "\x1b["}[p.n(34)] + w
	case 4: // white space around
		ws := []string{" ", "\n", "\r\n", "\t", "  ", "\v", "\f", "\u00a0", "\u2028", "\x00", "\r", "\u3000"}
		switch p.n(3) {
		case 0:
			return ws[p.n(len(ws))] + w
		case 1:
			return w + ws[p.n(len(ws))]
		}
		return ws[p.n(len(ws))] + w + ws[p.n(len(ws))]
	case 5: // white space inside
		return w + []string{" ", "\n", "\r\n", "\t", "  ", "\n\n", "\r"}[p.n(7)] + word()
	case 6: // escapes
		return w + []string{"\\n", "\\t", "\\\\", "\\x41", "\\u0041", "\\101", "\\0", "%41", "%20", "+", "&amp;", "&#65;", "%s", "%d", "%n", "%v%!", "$HOME", "${PATH}", "{{.}}", "`id`", "$(id)", "\\"}[p.n(22)] + word()
	case 7:
		return []string{"null", "true", "false", "undefined", "nil", "NaN", "None", "-", "--", "0", "-1", "1e3", "{}", "[]", "\"\"", "''", "EOF", "\x04", "\x1a", "\x7f", "\x80", "\xff", "\xff\xfe", "\xef\xbb\xbf", " ", "\n", "\x00"}[p.n(27)]
	case 8: // JSON
		return []string{`{"pin":"` + w + `"}`, `[` + p.digits(2) + `,"a"]`, `"` + w, `{"error":"x"}`, `{"data":null}`}[p.n(5)]
	case 9: // XML, URLs, paths
		return []string{"<a b=\"c\">" + w + "</a>", "https://example.com/?a=" + w + "&b=c", "../../" + w, "C:\\" + w, "a=" + w + "&b=2", "<!-- " + w + " -->", "; DROP TABLE x;--"}[p.n(7)]
	case 10: // encodings of something else
		b := p.bytes(1 + p.n(40))
		switch p.n(4) {
		case 0:
			return hex.EncodeToString(b)
		case 1:
			return strings.ToUpper(hex.EncodeToString(b))
		case 2:
			return base64.StdEncoding.EncodeToString(b)
		}
		return base64.URLEncoding.EncodeToString(b)
	case 11: // letters that change length or form with their case, or combine
		return []string{"\u00e9", "e\u0301", "\u0130", "\u00df", "\u1e9e", "\ufb01", "\U0001f600", "\U0010ffff", "\ufffd", "\ufffe", "\u200b", "\u202e", "\u0661\u0662", "\uff11\uff12", "\u212a", "\u00b5"}[p.n(16)] + w
	case 12: // not UTF-8
		return w + []string{"\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xc0\x80", "\xed\xa0\x80", "\xf5\x80\x80\x80", "\xfe", "\xe9t\xe9"}[p.n(8)] + word()
	case 13: // a card's track, a PIN, an account number
		return []string{"%B4012345678909^DOE/JOHN^25121011?", ";4012345678909=25121011000?", "4012345678909D987", "4012 3456 7890 9", "1234", "123456", "4012-3456-7890-9"}[p.n(7)]
	case 14: // the same again
		return w + w
	case 15: // lines
		return w + "\n" + word() + "\n" + word() + []string{"", "\n", "\r\n"}[p.n(3)]
	case 16: // the padding of other schemes
		n := 1 + p.n(16)
		switch p.n(5) {
		case 0:
			return w + strings.Repeat(string([]byte{byte(n)}), n)
		case 1:
			return w + "\x80" + strings.Repeat("\x00", n-1)
		case 2:
			return w + strings.Repeat("\x00", n-1) + string([]byte{byte(n)})
		case 3:
			return w + strings.Repeat("\x00", n)
		}
		return w + strings.Repeat(" ", n)
	default: // letters only, digits only
		return word()
	}
}

func (g G) action() Str {
	switch g.n(8) {
	case 0, 1, 2:
		return "request"
	case 3, 4, 5:
		return "response"
	case 6:
		if g.bool() {
			return Str(g.nearWord(actions...))
		}
		return pick[Str](g, "", "Response", "RESPONSE", "Request", "response ", " response", "respons", "responses", "verify", "mac", "both", "req", "res", "requestresponse")
	default:
		return Str(g.dictStr())
	}
}

func (g G) pinLen() int { return 4 + g.n(9) }

func (g G) pin() Str {
	n := g.pinLen()
	switch g.n(8) {
	case 0:
		return Str("123456789012"[:n])
	case 1:
		return Str(strings.Repeat(string(rune('0'+g.n(10))), n))
	case 2: // leading or trailing zeros
		p := g.seed().digits(n)
		k := g.n(n + 1)
		if g.bool() {
			return Str(strings.Repeat("0", k) + p[k:])
		}
		return Str(p[:n-k] + strings.Repeat("0", k))
	default:
		return Str(g.seed().digits(n))
	}
}

func (g G) panLen(min int) int { return min + g.n(20-min) }

func (g G) pan(min int, prev ...Str) Str {
	if len(prev) > 0 && g.one(3) {
		p := pick(g, prev...)
		if len(p) >= min && len(p) <= 19 && strings.Trim(string(p), "0123456789") == "" {
			return p
		}
	}
	n := g.panLen(min)
	switch g.n(7) {
	case 0:
		return Str("4012345678909123456"[:n])
	case 1:
		return Str(strings.Repeat(string(rune('0'+g.n(10))), n))
	case 2:
		p := g.seed().digits(n)
		k := g.n(n + 1)
		return Str(strings.Repeat("0", k) + p[k:])
	default:
		return Str(g.seed().digits(n))
	}
}

// Formats are the documented 8-byte PIN block formats.
var Formats = []string{"ISO-0", "ISO-1", "ISO-2", "ISO-3", "ANSI", "ECI1", "ECI2", "ECI3", "ECI4", "VISA1", "VISA2", "VISA3", "VISA4"}

func (g G) anyCase(s string) string {
	switch g.n(4) {
	default:
		return s
	case 1:
		return strings.ToLower(s)
	case 2, 3:
		p := g.seed()
		b := []byte(s)
		for i := range b {
			if p.n(2) == 0 {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	}
}

func (g G) format() Str { return Str(g.anyCase(pick(g, Formats...))) }

// iv of any length for block size bs.
func (g G) iv(bs int) Hex {
	switch g.n(10) {
	case 0:
		return nil
	case 1:
		return Hex{}
	case 2, 3:
		return g.bytesN(1 + g.n(bs-1))
	case 4:
		return g.bytesN(bs + 1 + g.n(3*bs))
	case 5:
		return make(Hex, g.n(2*bs+2))
	default:
		return g.bytesN(bs)
	}
}

func (g G) aesLen() int { return pick(g, 16, 24, 32) }
