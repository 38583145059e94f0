package props

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"
)

// Hex is a byte slice written as hex in case files; nil is null.
type Hex []byte

func (h Hex) MarshalJSON() ([]byte, error) {
	if h == nil {
		return []byte("null"), nil
	}
	if p := period(h); p > 0 { // long and repetitive
		return json.Marshal(fmt.Sprintf("%d*%s", len(h), hex.EncodeToString(h[:p])))
	}
	return json.Marshal(hex.EncodeToString(h))
}

// period of a long repetitive text, else 0.
func period(h []byte) int {
	if len(h) < 1024 {
		return 0
	}
next:
	for p := 1; p <= 64; p++ {
		for i := p; i < len(h); i++ {
			if h[i] != h[i-p] {
				continue next
			}
		}
		return p
	}
	return 0
}

// cycle is b again and again, n bytes in all.
func cycle(b []byte, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = b[i%len(b)]
	}
	return r
}

func (h *Hex) UnmarshalJSON(b []byte) error {
	var s *string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	if s == nil {
		*h = nil
		return nil
	}
	text, n := *s, 0
	if l, t, ok := strings.Cut(text, "*"); ok {
		text = t
		if _, err := fmt.Sscanf(l, "%d", &n); err != nil || n < 0 || t == "" {
			return fmt.Errorf("bad repetition %q", clip(*s))
		}
	}
	d, err := hex.DecodeString(text)
	if err != nil {
		return err
	}
	if n > 0 {
		d = cycle(d, n)
	}
	if d == nil {
		d = []byte{}
	}
	*h = d
	return nil
}

// Str is a string of any bytes; what is not plain text is written as hex.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	plain := utf8.ValidString(string(s)) && !strings.HasPrefix(string(s), "hex:")
	if plain {
		return json.Marshal(string(s))
	}
	return json.Marshal("hex:" + hex.EncodeToString([]byte(s)))
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var v string
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	if strings.HasPrefix(v, "hex:") {
		d, err := hex.DecodeString(v[4:])
		if err != nil {
			return err
		}
		*s = Str(d)
		return nil
	}
	*s = Str(v)
	return nil
}

func fail(kind, format string, a ...any) error {
	return fmt.Errorf("%s: "+format, append([]any{kind}, a...)...)
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}
