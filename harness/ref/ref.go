// Package ref is an independent reference implementation of everything the
// checked repository computes, written from the standards (ANSI X9.24-1:2009
// annex A, ANSI X9.24-3:2017 section 6, ISO 9564, RFC 4493, FIPS 198) and not
// from the repository. It imports nothing of the repository and none of its
// dependencies; only the bare block ciphers and SHA-256 of the Go standard
// library are trusted.
package ref

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/des"
	"crypto/sha256"
	"math/bits"
)

func xor(a, b []byte) []byte {
	r := make([]byte, len(a))
	for i := range a {
		r[i] = a[i] ^ b[i]
	}
	return r
}

func xorAt(k []byte, v byte, pos ...int) []byte {
	r := append([]byte{}, k...)
	for _, p := range pos { // positions counted from 1, as in the standard
		r[p-1] ^= v
	}
	return r
}

func zeroPad(m []byte, bs int) []byte {
	r := append([]byte{}, m...)
	for len(r)%bs != 0 {
		r = append(r, 0)
	}
	return r
}

// IVBlock is the first block of an IV, extended with zero bytes.
func IVBlock(iv []byte, bs int) []byte {
	r := make([]byte, bs)
	for i := 0; i < bs && i < len(iv); i++ {
		r[i] = iv[i]
	}
	return r
}

func desBlock(k []byte) cipher.Block {
	b, err := des.NewCipher(k)
	if err != nil {
		panic(err)
	}
	return b
}

// tdes is two-key triple DES (encrypt left, decrypt right, encrypt left), built
// from single DES.
type tdes struct{ l, r cipher.Block }

func newTdes(k []byte) tdes { return tdes{desBlock(k[:8]), desBlock(k[8:16])} }

func (t tdes) enc(in []byte) []byte {
	o := make([]byte, 8)
	t.l.Encrypt(o, in)
	t.r.Decrypt(o, o)
	t.l.Encrypt(o, o)
	return o
}

func (t tdes) dec(in []byte) []byte {
	o := make([]byte, 8)
	t.l.Decrypt(o, in)
	t.r.Encrypt(o, o)
	t.l.Decrypt(o, o)
	return o
}

// TdesEnc and TdesDec work on one block.
func TdesEnc(k, in []byte) []byte { return newTdes(k).enc(in) }
func TdesDec(k, in []byte) []byte { return newTdes(k).dec(in) }

// PadKsn left-pads a TDES KSN with FF bytes to 10 bytes.
func PadKsn(ksn []byte) []byte {
	r := []byte{}
	for i := len(ksn); i < 10; i++ {
		r = append(r, 0xFF)
	}
	return append(r, ksn...)
}

// DesCounter is the number in the 21 rightmost bits.
func DesCounter(ksn []byte) uint32 {
	n := len(ksn)
	return (uint32(ksn[n-3])<<16 | uint32(ksn[n-2])<<8 | uint32(ksn[n-1])) % (1 << 21)
}

// SetDesCounter replaces the 21 rightmost bits.
func SetDesCounter(ksn []byte, c uint32) []byte {
	r := append([]byte{}, ksn...)
	n := len(r)
	r[n-1] = byte(c)
	r[n-2] = byte(c >> 8)
	r[n-3] = r[n-3]>>5<<5 | byte(c>>16)&31
	return r
}

// DesIK is X9.24-1 A.6.
func DesIK(bdk, ksn []byte) []byte {
	reg := SetDesCounter(PadKsn(ksn), 0)[:8]
	left := TdesEnc(bdk, reg)
	right := TdesEnc(xorAt(bdk, 0xC0, 1, 2, 3, 4, 9, 10, 11, 12), reg)
	return append(left, right...)
}

// nrkg is the non-reversible key generation process for one crypto register.
func nrkg(reg, key []byte) []byte {
	half := func(k []byte) []byte {
		t := xor(reg, k[8:])
		o := make([]byte, 8)
		desBlock(k[:8]).Encrypt(o, t)
		return xor(o, k[8:])
	}
	right := half(key)
	left := half(xorAt(key, 0xC0, 1, 2, 3, 4, 9, 10, 11, 12))
	return append(left, right...)
}

// DesStep derives the key of counter value c (with its lowest set bit just
// added) from the key of c without that bit.
func DesStep(ksn []byte, c uint32, key []byte) []byte {
	return nrkg(SetDesCounter(PadKsn(ksn), c)[2:], key)
}

// DesTK walks the key tree from the most significant set bit down.
func DesTK(ik, ksn []byte) []byte {
	target := DesCounter(PadKsn(ksn))
	key := append([]byte{}, ik...)
	var c uint32
	for target != 0 {
		top := uint32(1) << (bits.Len32(target) - 1)
		target -= top
		c += top
		key = DesStep(ksn, c, key)
	}
	return key
}

// DesPinKey, DesMacKey and DesDataKey are the key variants (positions from 1).
func DesPinKey(tk []byte) []byte { return xorAt(tk, 0xFF, 8, 16) }

func DesMacKey(tk []byte, response bool) []byte {
	if response {
		return xorAt(tk, 0xFF, 5, 13)
	}
	return xorAt(tk, 0xFF, 7, 15)
}

func DesDataKey(tk []byte, response bool) []byte {
	v := xorAt(tk, 0xFF, 6, 14)
	if response {
		v = xorAt(tk, 0xFF, 4, 12)
	}
	return append(TdesEnc(v, v[:8]), TdesEnc(v, v[8:])...)
}

// DesMac is the retail MAC.
func DesMac(tk, msg []byte, response bool) []byte {
	k := DesMacKey(tk, response)
	l, r := desBlock(k[:8]), desBlock(k[8:])
	m := zeroPad(msg, 8)
	acc := make([]byte, 8)
	for i := 0; i < len(m); i += 8 {
		l.Encrypt(acc, xor(acc, m[i:i+8]))
	}
	r.Decrypt(acc, acc)
	l.Encrypt(acc, acc)
	return acc
}

func cbcEnc(enc func([]byte) []byte, bs int, iv, m []byte) []byte {
	out := []byte{}
	prev := IVBlock(iv, bs)
	for i := 0; i < len(m); i += bs {
		prev = enc(xor(m[i:i+bs], prev))
		out = append(out, prev...)
	}
	return out
}

func cbcDec(dec func([]byte) []byte, bs int, iv, c []byte) []byte {
	out := []byte{}
	prev := IVBlock(iv, bs)
	for i := 0; i < len(c); i += bs {
		out = append(out, xor(dec(c[i:i+bs]), prev)...)
		prev = c[i : i+bs]
	}
	return out
}

func DesEncData(tk, iv, msg []byte, response bool) []byte {
	return cbcEnc(newTdes(DesDataKey(tk, response)).enc, 8, iv, zeroPad(msg, 8))
}

func DesDecData(tk, iv, ct []byte, response bool) []byte {
	return cbcDec(newTdes(DesDataKey(tk, response)).dec, 8, iv, ct)
}

// NextCounter is the smallest value above c, of the given width, with at most
// max one bits. It is searched by brute force from c+1, skipping only values
// whose high part alone already has too many ones.
func NextCounter(c uint64, width, max int) (uint64, bool) {
	limit := uint64(1) << width
	for v := c + 1; v < limit; {
		if bits.OnesCount64(v) <= max {
			return v, true
		}
		// Among the values that share v's bits from 12 up, none is valid when
		// those bits alone have more than max ones.
		if hi := v >> 12; bits.OnesCount64(hi) > max {
			// find the lowest position p>=12 such that dropping bits below p
			// leaves at most max ones; nothing below can be valid before then
			p := 12
			for bits.OnesCount64(v>>p) > max {
				p++
			}
			v = (v>>p + 1) << p
			continue
		}
		v++
	}
	return 0, false
}

// ---- AES ----

func aesBlock(k []byte) cipher.Block {
	b, err := aes.NewCipher(k)
	if err != nil {
		panic(err)
	}
	return b
}

func AesEnc(k, in []byte) []byte {
	o := make([]byte, 16)
	aesBlock(k).Encrypt(o, in)
	return o
}

func AesDec(k, in []byte) []byte {
	o := make([]byte, 16)
	aesBlock(k).Decrypt(o, in)
	return o
}

const (
	UsePin     = 0x1000
	UseMacGen  = 0x2000
	UseMacVer  = 0x2001
	UseDataEnc = 0x3000
	UseDataDec = 0x3001
	UseDerive  = 0x8000
	UseInitial = 0x8001
)

func algIndicator(bytesLen int, hmac bool) int {
	if hmac {
		return 5
	}
	switch bytesLen {
	case 16:
		return 2
	case 24:
		return 3
	case 32:
		return 4
	}
	panic("key length")
}

// Derive makes a key of n bytes from key: X9.24-3 "derive key" with the last 8
// bytes of the derivation data given.
func Derive(key []byte, usage, alg, n int, tail []byte) []byte {
	b := aesBlock(key)
	out := []byte{}
	for i := 1; len(out) < n; i++ {
		d := []byte{1, byte(i), byte(usage >> 8), byte(usage), byte(alg >> 8), byte(alg), byte(n * 8 >> 8), byte(n * 8)}
		d = append(d, tail...)
		o := make([]byte, 16)
		b.Encrypt(o, d)
		out = append(out, o...)
	}
	return out[:n]
}

func AesIK(bdk, ksn []byte) []byte {
	return Derive(bdk, UseInitial, algIndicator(len(bdk), false), len(bdk), ksn[:8])
}

func AesCounter(ksn []byte) uint32 {
	n := len(ksn)
	return uint32(ksn[n-4])<<24 | uint32(ksn[n-3])<<16 | uint32(ksn[n-2])<<8 | uint32(ksn[n-1])
}

func SetAesCounter(ksn []byte, c uint32) []byte {
	r := append([]byte{}, ksn...)
	n := len(r)
	r[n-4], r[n-3], r[n-2], r[n-1] = byte(c>>24), byte(c>>16), byte(c>>8), byte(c)
	return r
}

func aesTail(ksn []byte, c uint32) []byte {
	return append(append([]byte{}, ksn[4:8]...), byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
}

// AesStep derives the derivation key of counter value c from its parent's.
func AesStep(ksn []byte, c uint32, key []byte) []byte {
	return Derive(key, UseDerive, algIndicator(len(key), false), len(key), aesTail(ksn, c))
}

func AesTK(ik, ksn []byte) []byte {
	target := AesCounter(ksn)
	key := append([]byte{}, ik...)
	var c uint32
	for target != 0 {
		top := uint32(1) << (bits.Len32(target) - 1)
		target -= top
		c += top
		key = AesStep(ksn, c, key)
	}
	return key
}

// AesWorking is a working key of n bytes.
func AesWorking(tk, ksn []byte, usage, n int, hmac bool) []byte {
	return Derive(tk, usage, algIndicator(n, hmac), n, aesTail(ksn, AesCounter(ksn)))
}

func macUse(response bool) int {
	if response {
		return UseMacVer
	}
	return UseMacGen
}

func dataUse(response bool) int {
	if response {
		return UseDataDec
	}
	return UseDataEnc
}

func AesCmac(tk, ksn, msg []byte, response bool) []byte {
	return Cmac(AesWorking(tk, ksn, macUse(response), len(tk), false), msg)
}

func AesHmac(tk, ksn, msg []byte, response bool) []byte {
	return Hmac(AesWorking(tk, ksn, macUse(response), len(tk), true), msg)
}

func AesEncData(tk, ksn, iv, msg []byte, response bool) []byte {
	b := aesBlock(AesWorking(tk, ksn, dataUse(response), len(tk), false))
	return cbcEnc(func(x []byte) []byte { o := make([]byte, 16); b.Encrypt(o, x); return o }, 16, iv, zeroPad(msg, 16))
}

func AesDecData(tk, ksn, iv, ct []byte, response bool) []byte {
	b := aesBlock(AesWorking(tk, ksn, dataUse(response), len(tk), false))
	return cbcDec(func(x []byte) []byte { o := make([]byte, 16); b.Decrypt(o, x); return o }, 16, iv, ct)
}

// Cmac is RFC 4493.
func Cmac(key, msg []byte) []byte {
	b := aesBlock(key)
	dbl := func(in []byte) []byte {
		o := make([]byte, 16)
		carry := byte(0)
		for i := 15; i >= 0; i-- {
			o[i] = in[i]<<1 | carry
			carry = in[i] >> 7
		}
		if carry == 1 {
			o[15] ^= 0x87
		}
		return o
	}
	l := make([]byte, 16)
	b.Encrypt(l, l)
	k1 := dbl(l)
	k2 := dbl(k1)
	m := append([]byte{}, msg...)
	sub := k1
	if len(m) == 0 || len(m)%16 != 0 {
		m = zeroPad(append(m, 0x80), 16)
		sub = k2
	}
	acc := make([]byte, 16)
	for i := 0; i < len(m); i += 16 {
		blk := m[i : i+16]
		if i+16 == len(m) {
			blk = xor(blk, sub)
		}
		b.Encrypt(acc, xor(acc, blk))
	}
	return acc
}

// Hmac is HMAC-SHA-256 (FIPS 198).
func Hmac(key, msg []byte) []byte {
	k := make([]byte, 64)
	copy(k, key)
	ip, op := make([]byte, 64), make([]byte, 64)
	for i := range k {
		ip[i] = k[i] ^ 0x36
		op[i] = k[i] ^ 0x5c
	}
	h := sha256.Sum256(append(ip, msg...))
	h = sha256.Sum256(append(op, h[:]...))
	return h[:]
}

// DesEnc and DesDec are single DES on one block.
func DesEnc(k, in []byte) []byte { o := make([]byte, 8); desBlock(k).Encrypt(o, in); return o }
func DesDec(k, in []byte) []byte { o := make([]byte, 8); desBlock(k).Decrypt(o, in); return o }

func three(k []byte) (a, b, c []byte) {
	if len(k) == 16 {
		return k[:8], k[8:], k[:8]
	}
	return k[:8], k[8:16], k[16:]
}

// Tdes3Enc and Tdes3Dec take 16- or 24-byte keys.
func Tdes3Enc(k, in []byte) []byte {
	a, b, c := three(k)
	return DesEnc(c, DesDec(b, DesEnc(a, in)))
}

func Tdes3Dec(k, in []byte) []byte {
	a, b, c := three(k)
	return DesDec(a, DesEnc(b, DesDec(c, in)))
}
