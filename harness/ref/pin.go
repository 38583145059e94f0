package ref

import (
	"encoding/hex"
	"errors"
	"fmt"
	"strings"
)

// Family of a PIN block format name (upper case), "" when unknown.
func Family(format string) string {
	switch format {
	case "ISO-0", "ANSI", "ECI1", "VISA1", "VISA4":
		return "iso0"
	case "ISO-1", "ECI4":
		return "iso1"
	case "ISO-2":
		return "iso2"
	case "ISO-3":
		return "iso3"
	case "ISO-4":
		return "iso4"
	case "ECI2":
		return "eci2"
	case "ECI3":
		return "eci3"
	case "VISA2":
		return "visa2"
	case "VISA3":
		return "visa3"
	}
	return ""
}

// UsesPan tells whether the 8-byte format binds the PAN.
func UsesPan(format string) bool {
	f := Family(format)
	return f == "iso0" || f == "iso3"
}

// Carried is the part of the PIN that the format transports.
func Carried(format, pin string) string {
	n := 12
	switch Family(format) {
	case "eci2":
		n = 4
	case "eci3", "visa2":
		n = 6
	}
	if len(pin) > n {
		return pin[:n]
	}
	return pin
}

const hexUp = "0123456789ABCDEF"

// Encode8 builds an 8-byte PIN block. fill supplies the random nibbles of the
// formats that have some (values are reduced to the allowed set).
func Encode8(format, pin, pan string, fill []byte) ([]byte, error) {
	if len(pin) < 4 || len(pin) > 12 {
		return nil, errors.New("pin length")
	}
	at := func(i int) int {
		if len(fill) == 0 {
			return 0
		}
		return int(fill[i%len(fill)])
	}
	var s string
	fillTo16 := func(set string) {
		for i := 0; len(s) < 16; i++ {
			s += string(set[at(i)%len(set)])
		}
	}
	head := func(v string) { s = v + string(hexUp[len(pin)]) + pin }
	switch Family(format) {
	case "iso0":
		head("0")
		fillTo16("F")
	case "iso1":
		head("1")
		fillTo16(hexUp)
	case "iso2":
		head("2")
		fillTo16("F")
	case "iso3":
		head("3")
		fillTo16("ABCDEF")
	case "eci2":
		s = pin[:4]
		fillTo16(hexUp)
	case "eci3", "visa2":
		p := Carried(format, pin)
		s = string(hexUp[len(p)]) + p
		for len(s) < 7 {
			s += "0"
		}
		if Family(format) == "eci3" {
			fillTo16(hexUp)
		} else {
			fillTo16("0123456789")
		}
	case "visa3":
		s = pin + "F"
		c := string("ABCDEF"[at(0)%6])
		for len(s) < 16 {
			s += c
		}
	default:
		return nil, errors.New("format")
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		return nil, err
	}
	if UsesPan(format) {
		if len(pan) < 13 {
			return nil, errors.New("pan length")
		}
		pb, err := hex.DecodeString("0000" + pan[len(pan)-13:len(pan)-1])
		if err != nil {
			return nil, err
		}
		b = xor(b, pb)
	}
	return b, nil
}

// Valid8 says whether an 8-byte clear block is a well-formed block of the
// format for that PIN and PAN.
func Valid8(format, pin, pan string, block []byte) error {
	if len(block) != 8 {
		return fmt.Errorf("block has %d bytes", len(block))
	}
	if UsesPan(format) {
		pb, err := hex.DecodeString("0000" + pan[len(pan)-13:len(pan)-1])
		if err != nil {
			return err
		}
		block = xor(block, pb)
	}
	s := strings.ToUpper(hex.EncodeToString(block))
	p := Carried(format, pin)
	only := func(rest, set string) error {
		for _, c := range rest {
			if !strings.ContainsRune(set, c) {
				return fmt.Errorf("fill %q of block %s is outside %s", rest, s, set)
			}
		}
		return nil
	}
	pre := func(want string) error {
		if !strings.HasPrefix(s, want) {
			return fmt.Errorf("clear block %s does not start with %s", s, want)
		}
		return nil
	}
	var head, set string
	switch Family(format) {
	case "iso0":
		head, set = "0"+string(hexUp[len(p)])+p, "F"
	case "iso1":
		head, set = "1"+string(hexUp[len(p)])+p, hexUp
	case "iso2":
		head, set = "2"+string(hexUp[len(p)])+p, "F"
	case "iso3":
		head, set = "3"+string(hexUp[len(p)])+p, "ABCDEF"
	case "eci2":
		head, set = p, hexUp
	case "eci3":
		head, set = string(hexUp[len(p)])+p+strings.Repeat("0", 6-len(p)), hexUp
	case "visa2":
		head, set = string(hexUp[len(p)])+p+strings.Repeat("0", 6-len(p)), "0123456789"
	case "visa3":
		head, set = p+"F", hexUp
	default:
		return errors.New("format")
	}
	if err := pre(head); err != nil {
		return err
	}
	rest := s[len(head):]
	if Family(format) == "visa3" {
		set = rest[:1] // one repeated pad value
	}
	return only(rest, set)
}

// Iso4Pan is the PAN block of ISO 9564 format 4.
func Iso4Pan(pan string) []byte {
	b, err := hex.DecodeString(string(hexUp[len(pan)-12]) + pan + strings.Repeat("0", 31-len(pan)))
	if err != nil {
		panic(err)
	}
	return b
}

// Iso4Encode enciphers a PIN with 8 random bytes given.
func Iso4Encode(key []byte, pin, pan string, random []byte) []byte {
	h := "4" + string(hexUp[len(pin)]) + pin + strings.Repeat("A", 14-len(pin))
	b, err := hex.DecodeString(h)
	if err != nil {
		panic(err)
	}
	b = append(b, IVBlock(random, 8)...)
	return AesEnc(key, xor(AesEnc(key, b), Iso4Pan(pan)))
}

// Iso4Open deciphers and checks a block; it returns the PIN and the random
// field.
func Iso4Open(key, ct []byte, pan string) (string, []byte, error) {
	if len(ct) != 16 {
		return "", nil, fmt.Errorf("enciphered block has %d bytes", len(ct))
	}
	b := AesDec(key, xor(AesDec(key, ct), Iso4Pan(pan)))
	s := strings.ToUpper(hex.EncodeToString(b))
	if s[0] != '4' {
		return "", nil, fmt.Errorf("opened block %s has control field %c", s, s[0])
	}
	n := strings.IndexByte(hexUp, s[1])
	if n < 4 || n > 12 {
		return "", nil, fmt.Errorf("opened block %s has PIN length %d", s, n)
	}
	pin := s[2 : 2+n]
	if strings.Trim(pin, "0123456789") != "" {
		return "", nil, fmt.Errorf("opened block %s has PIN %s", s, pin)
	}
	if strings.Trim(s[2+n:16], "A") != "" {
		return "", nil, fmt.Errorf("opened block %s has fill %s", s, s[2+n:16])
	}
	return pin, b[8:], nil
}
