package props

import (
	"errors"
	"fmt"
	"time"

	"verifharness/eng"

	"github.com/moov-io/dukpt/pkg/server"
	"pgregory.net/rapid"
)

// StHist is a history of calls of a repository itself.
type StHist struct {
	Ops []StOp `json:"ops"`
}

// StOp stores a machine (with the fields listed), or finds or deletes by a key.
type StOp struct {
	Op  string `json:"op"`
	Key Str    `json:"key,omitempty"`
	F   []Str  `json:"f,omitempty"` // the other fields
	At  int64  `json:"at,omitempty"`
}

func (o *StOp) machine() *server.Machine {
	f := make([]string, 6)
	for i := range o.F {
		f[i] = string(o.F[i])
	}
	m := &server.Machine{
		BaseKey:    server.BaseKey{Algorithm: f[0], AlgorithmKey: f[1], BaseDerivativeKey: f[2], KeySerialNumber: f[3]},
		InitialKey: string(o.Key), CurrentKSN: f[4], TransactionKey: f[5],
	}
	if o.At != 0 {
		m.CreatedAt = time.Unix(o.At, 0).UTC()
	}
	return m
}

var storeFields = [][]string{
	{"des", "aes", "", "DES", "x"},
	{"", "AES128", "AES256", "aes128"},
	{"0123456789abcdeffedcba9876543210", "0123456789ABCDEFFEDCBA9876543210", "", "zz"},
	{"FFFF9876543210E00001", "ffff9876543210e00001", "", "123456789012345600000001"},
	{"FFFF9876543210E00001", "FFFF9876543210E00008", ""},
	{"", "042666b49184cfa368de9628d0397bc9", "00"},
}

func drawStore(t *rapid.T) StHist {
	g := G{t}
	h := StHist{}
	keys := []string{"6ac292faa1315b4d858ab3a3d7d5933a", "6AC292FAA1315B4D858AB3A3D7D5933A", "", "a", " ", "6ac292faa1315b4d858ab3a3d7d5933b", "6ac292faa1315b4d", "list", "*"}
	q := g.seed()
	for i := q.n(3); i > 0; i-- {
		keys = append(keys, oddName(q, false), string(q.bytes(q.n(40))))
	}
	fields := func() (f []Str) {
		for _, c := range storeFields {
			s := c[0]
			if g.n(4) == 3 {
				s = c[g.n(len(c))]
			}
			f = append(f, Str(s))
		}
		return
	}
	for n := 1 + g.n(24); n > 0; n-- {
		o := StOp{Op: pick(g, "store", "store", "store", "find", "find", "list", "delete", "delete", "nil"), Key: Str(keys[g.n(len(keys))])}
		switch o.Op {
		case "store":
			o.F = fields()
			if g.n(4) == 0 {
				o.At = int64(g.n(1 << 30))
			}
		case "list", "nil":
			o.Key = ""
		}
		h.Ops = append(h.Ops, o)
	}
	return h
}

func checkStore(r *eng.Rec, h *StHist) error {
	repo := server.NewRepositoryInMemory(nil)
	want := map[string]*server.Machine{}
	stored := 0
	audit := func(what string) error {
		seen := map[string]bool{}
		for _, g := range repo.FindAllMachines() {
			if g == nil {
				return fail("listing has a nil machine", "after %s", what)
			}
			if seen[g.InitialKey] {
				return fail("listing has a machine twice", "%q after %s", g.InitialKey, what)
			}
			seen[g.InitialKey] = true
			if w := want[g.InitialKey]; w == nil || *w != *g {
				return fail("listing has another machine", "%+v want %+v after %s", g, w, what)
			}
		}
		if len(seen) != len(want) {
			return fail("listing lacks machines", "%d of %d after %s", len(seen), len(want), what)
		}
		return nil
	}
	for i := range h.Ops {
		o := &h.Ops[i]
		key := string(o.Key)
		what := fmt.Sprintf("%s %q", o.Op, key)
		bad := func(kind, format string, args ...any) error {
			h.Ops = h.Ops[:i+1]
			return fail(kind, "%s: %s", what, fmt.Sprintf(format, args...))
		}
		switch o.Op {
		case "store":
			err := repo.StoreMachine(o.machine())
			if want[key] != nil {
				if !errors.Is(err, server.ErrAlreadyExists) {
					return bad("storing a machine again", "%v", err)
				}
				r.Class("store: again")
			} else if err != nil {
				return bad("machine is not stored", "%v", err)
			} else {
				want[key] = o.machine()
				stored++
			}
		case "nil":
			if err := repo.StoreMachine(nil); err == nil {
				return bad("nil machine is stored", "")
			}
		case "find":
			g, err := repo.FindMachine(key)
			w := want[key]
			if w == nil {
				if !errors.Is(err, server.ErrNotFound) {
					return bad("unknown machine is found", "%+v %v", g, err)
				}
				r.Class("store: unknown")
			} else if err != nil || g == nil || *g != *w {
				return bad("machine is not found as stored", "%+v %v want %+v", g, err, w)
			}
		case "delete":
			if err := repo.DeleteMachine(key); err != nil {
				return bad("machine is not deleted", "%v", err)
			}
			delete(want, key)
		}
		if err := audit(what); err != nil {
			h.Ops = h.Ops[:i+1]
			return err
		}
	}
	r.Eval(h, stored > 0)
	return nil
}
