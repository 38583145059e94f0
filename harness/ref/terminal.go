package ref

import "math/bits"

// Terminal is the originating side of DUKPT: it is loaded with an initial key,
// forgets it, and afterwards holds only future keys, one register per counter
// bit. Each key is erased when it has been used.
type Terminal struct {
	aes     bool
	width   int
	max     int
	ksn     []byte // KSN with counter bits cleared
	reg     [][]byte
	counter uint64
	dead    bool
}

// NewTerminal loads the initial key. ksn gives everything but the counter.
func NewTerminal(aes bool, ik, ksn []byte) *Terminal {
	t := &Terminal{aes: aes, width: 21, max: 10}
	if aes {
		t.width, t.max = 32, 16
		t.ksn = SetAesCounter(ksn, 0)
	} else {
		t.ksn = SetDesCounter(ksn, 0)
	}
	t.reg = make([][]byte, t.width)
	for b := t.width - 1; b >= 0; b-- {
		t.reg[b] = t.step(uint64(1)<<b, ik)
	}
	t.counter = 1
	return t
}

func (t *Terminal) step(c uint64, key []byte) []byte {
	if t.aes {
		return AesStep(t.ksn, uint32(c), key)
	}
	return DesStep(t.ksn, uint32(c), key)
}

// KSN of the next transaction.
func (t *Terminal) KSN() []byte {
	if t.aes {
		return SetAesCounter(t.ksn, uint32(t.counter))
	}
	return SetDesCounter(t.ksn, uint32(t.counter))
}

// Dead reports that the terminal has no transaction left.
func (t *Terminal) Dead() bool { return t.dead }

// Key of the next transaction.
func (t *Terminal) Key() []byte {
	return t.reg[bits.TrailingZeros64(t.counter)]
}

// Done erases the current key, derives the future keys that it covers and
// moves to the next counter, as the originating device does after each
// transaction.
func (t *Terminal) Done() {
	s := bits.TrailingZeros64(t.counter)
	cur := t.reg[s]
	t.reg[s] = nil
	if bits.OnesCount64(t.counter) < t.max {
		for b := s - 1; b >= 0; b-- {
			t.reg[b] = t.step(t.counter|uint64(1)<<b, cur)
		}
		t.counter++
	} else {
		t.counter += uint64(1) << s
	}
	if t.counter>>t.width != 0 {
		t.dead = true
	}
}

// Seek brings a fresh terminal to the counter value c (at most max ones)
// without running all transactions before it: it derives, as the device would
// have, the key of every prefix of c and the registers below.
func Seek(aes bool, ik, ksn []byte, c uint64) *Terminal {
	t := NewTerminal(aes, ik, ksn)
	var p uint64
	for b := t.width - 1; b >= 0; b-- {
		bit := uint64(1) << b
		if c&bit == 0 {
			continue
		}
		if p|bit == c {
			break // reg[b] is the key of c
		}
		cur := t.reg[b]
		t.reg[b] = nil
		p |= bit
		for i := b - 1; i >= 0; i-- {
			t.reg[i] = t.step(p|uint64(1)<<i, cur)
		}
	}
	t.counter = c
	return t
}
