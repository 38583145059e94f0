package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync"

	"verifharness/eng"

	"pgregory.net/rapid"
)

// Kept is a long run of a few calls, over and over, whose results are all kept.
type Kept struct {
	Calls []Call `json:"calls"`
	N     int    `json:"n"`              // number of calls made
	Conc  int    `json:"conc,omitempty"` // goroutines, each making N calls
}

func (k *Kept) Smaller() (r []Kept) {
	if k.Conc > 0 {
		r = append(r, Kept{k.Calls, k.N, 0})
	}
	for i := range k.Calls {
		if len(k.Calls) > 1 {
			d := Kept{N: k.N, Conc: k.Conc}
			d.Calls = append(append(d.Calls, k.Calls[:i]...), k.Calls[i+1:]...)
			r = append(r, d)
		}
	}
	for _, n := range []int{k.N / 2, k.N * 9 / 10, k.N - 1} {
		if n > 0 && n < k.N {
			r = append(r, Kept{k.Calls, n, k.Conc})
		}
	}
	return
}

func drawKept(t *rapid.T) Kept {
	g := G{t}
	k := Kept{}
	cheap := true
	for n := 1 + g.n(4); n > 0; n-- {
		var c Call
		if g.n(3) == 0 {
			c = build(ptr(drawPrim(g, k.Calls)))
		} else {
			c = build(ptr(drawAny(g, k.Calls)))
		}
		c.Fill = nil
		if len(c.Msg) > 200 {
			c.Msg = c.Msg[:96]
		}
		switch c.Fn[:3] {
		case "hex", "ksn", "ecb":
		default:
			cheap = false
		}
		k.Calls = append(k.Calls, c)
	}
	k.N = 40 + g.n(300)
	if g.n(6) == 5 {
		k.N = 1000 + g.n(2000)
		if cheap {
			k.N *= 10
		}
	}
	if g.n(4) == 3 {
		k.Conc, k.N = 2+g.n(3), k.N/2
	}
	return k
}

type kept struct {
	out   Out
	bytes []byte
	str   string
}

// keep makes the calls and checks each result against the first of its call.
func (k *Kept) keep(from int) (l []kept, err error) {
	first := make([]*outcome, len(k.Calls))
	for n := 0; n < k.N; n++ {
		i := (n + from) % len(k.Calls)
		c := k.Calls[i]
		o := exec(&c)
		l = append(l, kept{o, append([]byte{}, o.B...), strings.Clone(o.S)})
		if n >= 64 && n%16 > 0 && strings.HasSuffix(c.Fn, "encpin") {
			continue // decrypting all of them takes too long
		}
		m := meaning(&c, o)
		if first[i] == nil {
			first[i] = &m
		} else if m != *first[i] {
			return nil, fail("equal calls give different results", "%s as call %d: %v, at first %v", c.Fn, n, m, *first[i])
		}
	}
	return l, nil
}

func checkKept(r *eng.Rec, k *Kept) error {
	var all []kept
	if k.Conc < 2 {
		l, err := k.keep(0)
		if err != nil {
			return err
		}
		all = l
	} else {
		lists, errs := make([][]kept, k.Conc), make([]error, k.Conc)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := range lists {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				lists[w], errs[w] = k.keep(w)
			}()
		}
		close(start)
		wg.Wait()
		for w := range lists {
			if errs[w] != nil {
				return errs[w]
			}
			all = append(all, lists[w]...)
		}
	}
	for i, h := range all {
		if !bytes.Equal(h.bytes, h.out.B) || h.str != h.out.S {
			return fail("earlier result changed", "result %d of %d was %x%s and became %x%s", i, len(all), h.bytes, h.str, h.out.B, strings.Clone(h.out.S))
		}
	}
	type mem struct {
		lo, hi uintptr
		i      int
	}
	var ms []mem
	for i, h := range all {
		if lo, hi := span(h.out.B); hi > lo {
			ms = append(ms, mem{lo, hi, i})
		}
	}
	sort.Slice(ms, func(a, b int) bool { return ms[a].lo < ms[b].lo })
	for i := 1; i < len(ms); i++ {
		if ms[i].lo < ms[i-1].hi {
			return fail("result shares memory with an earlier result", "results %d and %d of %d", ms[i-1].i, ms[i].i, len(all))
		}
	}
	var fns []string
	for _, c := range k.Calls {
		fns = append(fns, "keeping results of "+c.Fn)
	}
	size := "1 to 500 results kept"
	switch {
	case len(all) > 10000:
		size = "over 10000 results kept"
	case len(all) > 500:
		size = "500 to 10000 results kept"
	}
	r.Eval(k, len(all) > len(k.Calls), append(fns, size, fmt.Sprintf("by %d goroutines", max(1, k.Conc)))...)
	return nil
}
