package props

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"unsafe"

	"github.com/moov-io/dukpt/encryption"
	"verifharness/eng"

	"pgregory.net/rapid"
)

// Pure is a history of calls whose argument and result memory is watched.
type Pure struct {
	Calls []Call `json:"calls"`
	Pre   []int  `json:"pre"`  // bytes before each argument slice in its backing array
	Post  []int  `json:"post"` // spare capacity after it
	Joint bool   `json:"joint"`
	Perm  []int  `json:"perm"`
	Conc  int    `json:"conc"`
	Cold  bool   `json:"cold,omitempty"` // the concurrent calls come first
}

func drawPure(t *rapid.T) Pure {
	g := G{t}
	p := Pure{Joint: g.bool()}
	n := 2 + g.n(7)
	for i := 0; i < n; i++ {
		var c Call
		switch {
		case i > 0 && g.n(4) == 0:
			c = p.Calls[g.n(i)] // an equal call later in the history
		case g.n(5) == 0:
			c = mutate(g, drawAny(g, p.Calls))
		default:
			c = build(ptr(drawAny(g, p.Calls)))
			c.Fill = nil
		}
		if len(c.Msg) > 2000 {
			c.Msg = c.Msg[:1024]
		}
		p.Calls = append(p.Calls, c)
		p.Pre = append(p.Pre, g.n(4))
		p.Post = append(p.Post, pick(g, 0, 1, 2, 4, 8, 16, 40))
	}
	for i := range p.Calls {
		p.Perm = append(p.Perm, i)
	}
	pr := g.seed()
	for i := len(p.Perm) - 1; i > 0; i-- {
		j := pr.n(i + 1)
		p.Perm[i], p.Perm[j] = p.Perm[j], p.Perm[i]
	}
	if g.bool() {
		p.Conc = 2 + g.n(4)
		p.Cold = g.bool()
	}
	return p
}

// coldStart is, in each process, the first use of the library: calls of every
// function, format, key type and action at once.
func coldStart(yield func(*Pure) bool) {
	p := mixer("coldstart")
	c := Pure{Conc: 4, Cold: true}
	add := func(d Call) {
		d = build(&d)
		d.Fill = nil
		c.Calls = append(c.Calls, d)
		c.Pre, c.Post, c.Perm = append(c.Pre, 1), append(c.Post, 8), append(c.Perm, len(c.Perm))
	}
	for rep := 0; rep < 2; rep++ {
		for _, f := range Formats {
			d := Call{Fn: "des.encpin", Key: p.bytes(16), Pin: Str(p.digits(6)), Pan: Str(p.digits(16)), Fmt: Str(f)}
			add(d)
			d.Fn, d.Fill = "des.decpin", p.bytes(16)
			add(d)
		}
		for _, n := range []int{16, 24, 32} {
			k, ksn, pan, kt := Hex(p.bytes(n)), Hex(p.bytes(12)), Str(p.digits(16)), ktOf(n, false)
			add(Call{Fn: "aes.ik", Key: k, Ksn: ksn})
			add(Call{Fn: "aes.tk", Key: k, Ksn: ksn})
			add(Call{Fn: "aes.encpin", Key: k, Ksn: ksn, Pin: Str(p.digits(5)), Pan: pan, Kt: kt})
			add(Call{Fn: "aes.decpin", Key: k, Ksn: ksn, Pin: Str(p.digits(5)), Pan: pan, Kt: kt, Fill: p.bytes(8)})
			for _, a := range []Str{"request", "response"} {
				add(Call{Fn: "aes.cmac", Key: k, Ksn: ksn, Msg: p.bytes(20), Act: a, Kt: kt})
				add(Call{Fn: "aes.hmac", Key: k, Ksn: ksn, Msg: p.bytes(20), Act: a, Kt: ktOf(n, true)})
				add(Call{Fn: "aes.enc", Key: k, Ksn: ksn, Msg: p.bytes(20), IV: p.bytes(16), Act: a, Kt: kt})
				add(Call{Fn: "aes.dec", Key: k, Ksn: ksn, Msg: p.bytes(32), IV: p.bytes(16), Act: a, Kt: kt})
			}
			add(Call{Fn: "ecb.aesenc", Key: k, Msg: p.bytes(16)})
			add(Call{Fn: "ecb.aesdec", Key: k, Msg: p.bytes(16)})
		}
		k, ksn := Hex(p.bytes(16)), Hex(p.bytes(10))
		add(Call{Fn: "des.ik", Key: k, Ksn: ksn})
		add(Call{Fn: "des.tk", Key: k, Ksn: ksn})
		for _, a := range []Str{"request", "response"} {
			add(Call{Fn: "des.mac", Key: k, Msg: p.bytes(20), Act: a})
			add(Call{Fn: "des.enc", Key: k, Msg: p.bytes(20), IV: p.bytes(8), Act: a})
			add(Call{Fn: "des.dec", Key: k, Msg: p.bytes(24), IV: p.bytes(8), Act: a})
		}
		for _, fn := range []string{"ksn.desnext", "ksn.destc"} {
			add(Call{Fn: fn, Ksn: ksn})
		}
		for _, fn := range []string{"ksn.aesnext", "ksn.aestc", "ksn.aesvalid"} {
			add(Call{Fn: fn, Ksn: p.bytes(12)})
		}
		add(Call{Fn: "hex.enc", Msg: p.bytes(20)})
		add(Call{Fn: "hex.dec", Msg: Hex("0a1B2c")})
		for _, fn := range []string{"ecb.desenc", "ecb.desdec"} {
			add(Call{Fn: fn, Key: p.bytes(8), Msg: p.bytes(8)})
		}
		for _, fn := range []string{"ecb.tdesenc", "ecb.tdesdec"} {
			add(Call{Fn: fn, Key: p.bytes(16), Msg: p.bytes(8)})
		}
	}
	for i := 0; i < eng.Cfg.Shards; i++ { // one for each process
		if eng.Mine(i) && !yield(&c) {
			return
		}
	}
}

func ptr[T any](v T) *T { return &v }

// region is memory the library does not own.
type region struct {
	buf  []byte // whole backing array
	orig []byte
	what string
}

// place copies the call's slices into guarded backing arrays.
func place(c *Call, pre, post int, joint bool) (Call, []region) {
	d := *c
	fields := []*Hex{&d.Key, &d.Ksn, &d.Msg, &d.IV}
	names := []string{"key", "ksn", "data", "iv"}
	var regs []region
	canary := byte(0xC3)
	fill := func(b []byte) {
		for i := range b {
			canary = canary*5 + 1
			b[i] = canary
		}
	}
	if joint { // all arguments side by side in one array
		total := pre
		for _, f := range fields {
			total += len(*f)
		}
		buf := make([]byte, total+post)
		fill(buf)
		at := pre
		for _, f := range fields {
			if *f == nil {
				continue
			}
			n := copy(buf[at:], *f)
			*f = Hex(buf[at : at+n]) // capacity reaches into the following arguments
			at += n
		}
		return d, []region{{buf, append([]byte{}, buf...), "arguments (one array)"}}
	}
	for i, f := range fields {
		if *f == nil {
			continue
		}
		buf := make([]byte, pre+len(*f)+post)
		fill(buf)
		copy(buf[pre:], *f)
		*f = Hex(buf[pre : pre+len(*f)])
		regs = append(regs, region{buf, append([]byte{}, buf...), names[i]})
	}
	return d, regs
}

func span(b []byte) (lo, hi uintptr) {
	if cap(b) == 0 {
		return 0, 0
	}
	lo = uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return lo, lo + uintptr(cap(b))
}

func strSpan(s string) (lo, hi uintptr) {
	if len(s) == 0 {
		return 0, 0
	}
	lo = uintptr(unsafe.Pointer(unsafe.StringData(s)))
	return lo, lo + uintptr(len(s))
}

func overlap(alo, ahi, blo, bhi uintptr) bool { return alo < bhi && blo < ahi }

type outcome struct {
	kind string // "ok", "error", "panic"
	val  string
}

// meaning is the part of a result that has to be equal for equal calls: the
// random fields of PIN blocks are set aside by decrypting them.
func meaning(c *Call, o Out) outcome {
	if eng.IsPanic(o.Err) {
		return outcome{"panic", ""}
	}
	if o.Err != nil {
		return outcome{"error", ""}
	}
	v := fmt.Sprintf("%x|%s|%d|%v", o.B, o.S, o.U, o.Bool)
	switch c.Fn {
	case "des.encpin", "aes.encpin":
		d := *c
		d.Fn, d.Msg = strings.Replace(c.Fn, "enc", "dec", 1), append(Hex{}, o.B...)
		q := exec(&d)
		v = fmt.Sprintf("%d bytes decrypting to %q (error %v)", len(o.B), q.S, q.Err != nil)
	}
	return outcome{"ok", v}
}

func checkPure(r *eng.Rec, p *Pure) error {
	type held struct {
		call  int
		out   Out
		bytes []byte
		str   string
	}
	var hs []held
	first := make([]outcome, len(p.Calls))
	run := func(i, pass int) error {
		c := &p.Calls[i]
		d, regs := place(c, p.Pre[i], p.Post[i], p.Joint)
		o := exec(&d)
		for _, g := range regs {
			if !bytes.Equal(g.buf, g.orig) {
				at := 0
				for g.buf[at] == g.orig[at] {
					at++
				}
				return fail("argument memory changed", "call %d (%s) changes byte %d of the memory of its %s", i, c.Fn, at, g.what)
			}
		}
		lo, hi := span(o.B)
		slo, shi := strSpan(o.S)
		for _, g := range regs {
			glo, ghi := span(g.buf)
			if overlap(lo, hi, glo, ghi) || overlap(slo, shi, glo, ghi) {
				return fail("result shares memory with an argument", "call %d (%s) and its %s", i, c.Fn, g.what)
			}
		}
		for _, h := range hs {
			hlo, hhi := span(h.out.B)
			if overlap(lo, hi, hlo, hhi) {
				return fail("result shares memory with an earlier result", "call %d (%s) and call %d", i, c.Fn, h.call)
			}
		}
		m := meaning(c, o)
		if pass == 0 && !p.Cold {
			first[i] = m
		} else if m != first[i] {
			return fail("equal calls give different results", "call %d (%s): first %v, then %v", i, c.Fn, first[i], m)
		}
		h := held{i, o, append([]byte{}, o.B...), strings.Clone(o.S)}
		// the caller reuses its argument memory
		for _, g := range regs {
			for k := range g.buf {
				g.buf[k] ^= 0xA6
			}
		}
		if !bytes.Equal(h.bytes, o.B) || h.str != o.S {
			return fail("result depends on argument memory", "call %d (%s) changed after its arguments were overwritten", i, c.Fn)
		}
		hs = append(hs, h)
		return nil
	}
	stale := func() error {
		for _, h := range hs {
			if !bytes.Equal(h.bytes, h.out.B) || h.str != h.out.S {
				return fail("earlier result changed", "result of call %d (%s) was %x and became %x after later calls", h.call, p.Calls[h.call].Fn, h.bytes, h.out.B)
			}
		}
		return nil
	}
	if p.Conc > 0 && p.Cold { // before anything could be remembered
		if err := concPure(p, first, true); err != nil {
			return err
		}
		r.Class("concurrent calls before sequential ones")
	}
	for i := range p.Calls {
		if err := run(i, 0); err != nil {
			return err
		}
	}
	if err := stale(); err != nil {
		return err
	}
	// equal calls inside the history
	byArg := map[string]int{}
	for i := range p.Calls {
		k := fmt.Sprintf("%+v", p.Calls[i])
		if j, ok := byArg[k]; ok && first[i] != first[j] {
			return fail("equal calls give different results", "calls %d and %d (%s): %v and %v", j, i, p.Calls[i].Fn, first[j], first[i])
		}
		byArg[k] = i
	}
	// the caller overwrites every result up to its capacity
	for i := range hs {
		b := hs[i].out.B
		b = b[:cap(b)]
		for k := range b {
			b[k] = 0xA5
		}
	}
	hs = hs[:0]
	for _, i := range p.Perm {
		if err := run(i, 1); err != nil {
			return err
		}
	}
	if err := stale(); err != nil {
		return err
	}
	if p.Conc > 0 && !p.Cold {
		if err := concPure(p, first, false); err != nil {
			return err
		}
		r.Class("with concurrent calls on shared arguments")
	}
	for i := range p.Calls {
		r.Eval(p.Calls[i], true, "call "+p.Calls[i].Fn, "outcome "+first[i].kind)
	}
	return nil
}

// concPure runs all calls in several goroutines on the same argument slices.
// Their outcomes have to be those of the sequential calls; when these are not
// known yet, they have to agree and are left in first.
func concPure(p *Pure, first []outcome, learn bool) error {
	type shared struct {
		call Call
		regs []region
	}
	var sh []shared
	for i := range p.Calls {
		c, regs := place(&p.Calls[i], p.Pre[i], p.Post[i], p.Joint)
		sh = append(sh, shared{c, regs})
	}
	errs := make([]error, p.Conc)
	got := make([][]outcome, p.Conc)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < p.Conc; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			got[w] = make([]outcome, len(sh))
			for k := range sh {
				i := (k + w*(w+1)/2) % len(sh)
				if w%2 == 1 {
					i = len(sh) - 1 - i
				}
				c := sh[i].call
				o := exec(&c)
				m := meaning(&c, o)
				if got[w][i] = m; !learn && m != first[i] {
					errs[w] = fail("concurrent call gives another result", "call %d (%s): alone %v, concurrently %v", i, c.Fn, first[i], m)
					return
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	if learn {
		copy(first, got[0])
		for w := range got {
			for i, m := range got[w] {
				if m != first[i] {
					return fail("concurrent calls give different results", "call %d (%s): %v and %v", i, p.Calls[i].Fn, first[i], m)
				}
			}
		}
	}
	for i, s := range sh {
		for _, g := range s.regs {
			if !bytes.Equal(g.buf, g.orig) {
				return fail("argument memory changed", "call %d (%s) changes the memory of its %s", i, p.Calls[i].Fn, g.what)
			}
		}
	}
	return nil
}

// checkEcbConc uses one cipher object from several goroutines.
func checkEcbConc(r *eng.Rec, c *EcbObj) error {
	if err := checkEcbShared(c); err != nil {
		return err
	}
	r.Eval(c, true, "cipher object "+c.Kind)
	return nil
}

func checkEcbShared(c *EcbObj) error {
	key := append([]byte{}, c.Key...)
	var e ecb
	var err error
	if perr := eng.Try(func() {
		switch c.Kind {
		case "aes":
			e, err = encryption.NewAesECB(key)
		case "des":
			e, err = encryption.NewDesECB(key)
		default:
			e, err = encryption.NewTripleDesECB(key)
		}
	}); perr != nil || err != nil {
		return nil // not this property
	}
	if !bytes.Equal(key, c.Key) {
		return fail("argument memory changed", "the key given to the %s constructor", c.Kind)
	}
	op := func(i int) ([]byte, error) {
		in := append(make([]byte, 0, len(c.Blocks[i])+24), c.Blocks[i]...)
		var out []byte
		var oerr error
		perr := eng.Try(func() {
			if c.Dirs[i] {
				out, oerr = e.Encrypt(in)
			} else {
				out, oerr = e.Decrypt(in)
			}
		})
		if perr != nil {
			return nil, perr
		}
		if !bytes.Equal(in, c.Blocks[i]) || !bytes.Equal(in[:cap(in)][len(in):], make([]byte, cap(in)-len(in))) {
			return nil, fail("argument memory changed", "block given to the %s cipher", c.Kind)
		}
		if oerr != nil {
			return []byte("error"), nil
		}
		return out, nil
	}
	first := make([][]byte, len(c.Blocks))
	for i := range c.Blocks {
		out, err := op(i)
		if err != nil {
			return err
		}
		first[i] = append([]byte{}, out...)
	}
	errs := make([]error, 3)
	var wg sync.WaitGroup
	for w := range errs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range c.Blocks {
				i := (k + w) % len(c.Blocks)
				out, err := op(i)
				if err == nil && !bytes.Equal(out, first[i]) {
					err = fail("concurrent call gives another result", "%s block %d: alone %x, concurrently %x", c.Kind, i, first[i], out)
				}
				if err != nil {
					errs[w] = err
					return
				}
			}
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}
