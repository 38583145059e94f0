package ref

import (
	"encoding/hex"
	"fmt"
	"math/bits"
	"strings"
)

func hx(s string) []byte {
	b, err := hex.DecodeString(strings.ReplaceAll(s, " ", ""))
	if err != nil {
		panic(err)
	}
	return b
}

// SelfTest compares the reference with published values: the examples of ANSI
// X9.24-1:2009 annex A.4, of X9.24-3:2017 annex B and its supplementary vectors,
// RFC 4493, RFC 4231, and the counter rules by brute force.
func SelfTest() error {
	var errs []string
	eq := func(name string, got []byte, want string) {
		if hex.EncodeToString(got) != strings.ToLower(strings.ReplaceAll(want, " ", "")) {
			errs = append(errs, fmt.Sprintf("%s: got %x want %s", name, got, want))
		}
	}
	ok := func(name string, c bool) {
		if !c {
			errs = append(errs, name)
		}
	}

	// X9.24-1 annex A.4 (also printed in A.6)
	bdk, ksn := hx("0123456789ABCDEFFEDCBA9876543210"), hx("FFFF9876543210E00000")
	ik := DesIK(bdk, ksn)
	eq("TDES initial key", ik, "6AC292FAA1315B4D858AB3A3D7D5933A")
	at := func(c uint32) []byte { return DesTK(ik, SetDesCounter(ksn, c)) }
	eq("TDES key 1", at(1), "042666B49184CFA368DE9628D0397BC9")
	eq("TDES key 2", at(2), "C46551CEF9FD24B0AA9AD834130D3BC7")
	eq("TDES key 3", at(3), "0DF3D9422ACA56E547676D07AD6BADFA")
	eq("TDES PIN key 0xFF800", DesPinKey(at(0xFF800)), "F9CDFEBF4F5B1D61B3EC12454527E189")
	// PIN 1234, PAN 4012345678909, counter 1: 1B9C1845EB993A7A
	eq("TDES PIN block", TdesEnc(DesPinKey(at(1)), hx("041274EDCBA9876F")), "1B9C1845EB993A7A")
	m := []byte("4012345678909D987")
	eq("TDES MAC request", DesMac(at(1), m, false), "9CCC78173FC4FB64")
	eq("TDES MAC response", DesMac(at(1), m, true), "20364223C1FF00FA")
	eq("TDES data request", DesEncData(at(1), nil, m, false), "FC0D53B7EA1FDA9EE68AAF2E70D9B9506229BE2AA993F04F")

	// AES
	aik := AesIK(hx("FEDCBA9876543210F1F1F1F1F1F1F1F1FEDCBA9876543210F1F1F1F1F1F1F1F1"), hx("1234567890123456"))
	eq("AES-256 initial key", aik, "CE9CE0C101D1138F97FB6CAD4DF045A7083D4EAE2D35A31789D01CCF0949550F")
	a128 := AesIK(hx("FEDCBA9876543210F1F1F1F1F1F1F1F1"), hx("1234567890123456"))
	eq("AES-128 initial key", a128, "1273671EA26AC29AFA4D1084127652A1")
	k1 := hx("123456789012345600000001")
	eq("AES-128 key 1", AesTK(a128, k1), "4F21B565BAD9835E112B6465635EAE44")
	eq("AES-128 key 2", AesTK(a128, SetAesCounter(k1, 2)), "2F34D68DE10F68D38091A73B9E7C437C")
	eq("AES-128 PIN key 1", AesWorking(AesTK(a128, k1), k1, UsePin, 16, false), "AF8CB133A78F8DC2D1359F18527593FB")
	eq("AES-128 MAC generation key 1", AesWorking(AesTK(a128, k1), k1, UseMacGen, 16, false), "A2DC23DE6FDE0824A2BC321E08E4B8B7")
	eq("AES-128 data encryption key 1", AesWorking(AesTK(a128, k1), k1, UseDataEnc, 16, false), "A35C412EFD41FDB98B69797C02DCD08F")

	// RFC 4493
	key := hx("2b7e151628aed2a6abf7158809cf4f3c")
	msg := hx("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e5130c81c46a35ce411e5fbc1191a0a52eff69f2445df4f9b17ad2b417be66c3710")
	eq("CMAC 0", Cmac(key, nil), "bb1d6929e95937287fa37d129b756746")
	eq("CMAC 16", Cmac(key, msg[:16]), "070a16b46b4d4144f79bdd9dd04a287c")
	eq("CMAC 40", Cmac(key, msg[:40]), "dfa66747de9ae63030ca32611497c827")
	eq("CMAC 64", Cmac(key, msg), "51f0bebf7e3b9d92fc49741779363cfe")
	// RFC 4231 case 2
	eq("HMAC", Hmac([]byte("Jefe"), []byte("what do ya want for nothing?")), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843")

	// ISO format 0 of PIN 1234, PAN 4012345678909
	blk, err := Encode8("ISO-0", "1234", "4012345678909", make([]byte, 16))
	ok("ISO-0 encode", err == nil)
	eq("ISO-0 block", blk, "041274EDCBA9876F")
	for _, f := range []string{"ISO-0", "ISO-1", "ISO-2", "ISO-3", "ANSI", "ECI1", "ECI2", "ECI3", "ECI4", "VISA1", "VISA2", "VISA3", "VISA4"} {
		b, err := Encode8(f, "92345678", "4012345678909", hx("000102030405060708090a0b0c0d0e0f"))
		ok(f+" encode", err == nil && Valid8(f, "92345678", "4012345678909", b) == nil)
		ok(f+" wrong PIN", Valid8(f, "91345678", "4012345678909", b) != nil)
	}
	i4 := Iso4Encode(key, "1234", "432198765432109870", hx("2F69ADDE2E9E7ACE"))
	pin, _, err := Iso4Open(key, i4, "432198765432109870")
	ok("ISO-4 round trip", err == nil && pin == "1234")
	_, _, err = Iso4Open(hx("00112233445566778899AABBCCDDEEFF"), Iso4Encode(hx("00112233445566778899AABBCCDDEEFF"), "1234", "1234567890123456789", hx("0123456789ABCDEF")), "1234567890123456789")
	ok("ISO-4 round trip 19", err == nil)

	// counters by brute force
	v := uint64(0)
	for c := uint64(0); c < 1<<13; c++ { // width 13, at most 5 ones
		if c < v {
			continue
		}
		n, more := NextCounter(c, 13, 5)
		w := c + 1
		for w < 1<<13 && bits.OnesCount64(w) > 5 {
			w++
		}
		ok("next counter", more == (w < 1<<13) && (!more || n == w))
		v = c + 1
	}
	for _, s := range []uint32{0x1FF7FF, 0x1FF800, 0x1FF000, 0x0FFFFF, 0x1FEC00} {
		n, more := NextCounter(uint64(s), 21, 10)
		w := s + 1
		for w < 1<<21 && bits.OnesCount32(w) > 10 {
			w++
		}
		ok("next TDES counter", more == (w < 1<<21) && (!more || uint32(n) == w))
	}

	// the two sides agree with each other
	for _, aes := range []bool{false, true} {
		i, k := ik, ksn
		if aes {
			i, k = a128, k1
		}
		t := NewTerminal(aes, i, k)
		for n := 0; n < 40; n++ {
			var want []byte
			if aes {
				want = AesTK(i, t.KSN())
			} else {
				want = DesTK(i, t.KSN())
			}
			ok("terminal key", string(want) == string(t.Key()))
			t.Done()
		}
	}
	if len(errs) > 0 {
		return fmt.Errorf("reference self-test: %s", strings.Join(errs, "; "))
	}
	return nil
}
