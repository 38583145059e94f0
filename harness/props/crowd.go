package props

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/eng"

	"github.com/moov-io/dukpt/pkg/server"
)

// Crowd is one operation called by many at the same time, on the same machine
// or (creating, advancing, deleting) each on one of its own.
type Crowd struct {
	Bases []Base `json:"bases"`
	Op    SOp    `json:"op"`
	N     int    `json:"n"`
	HTTP  bool   `json:"http,omitempty"`
	Own   bool   `json:"own,omitempty"`
}

func (c *Crowd) Smaller() (r []Crowd) {
	for _, n := range []int{c.N / 2, c.N - 1} {
		if n > 1 {
			d := *c
			d.N = n
			r = append(r, d)
		}
	}
	return
}

// meetRepo is a repository whose callers wait for each other, unless that
// turns out to be impossible.
type meetRepo struct {
	server.Repository
	n      int32 // callers that meet, 0 for none
	inside atomic.Int32
	off    atomic.Bool
	met    atomic.Int32 // most callers seen at the same time
}

func (m *meetRepo) meet() {
	if m.n == 0 {
		return
	}
	in := m.inside.Add(1)
	for {
		k := m.met.Load()
		if in <= k || m.met.CompareAndSwap(k, in) {
			break
		}
	}
	for t := time.Now(); !m.off.Load(); time.Sleep(50 * time.Microsecond) {
		if m.inside.Load() >= m.n || time.Since(t) > 5*time.Millisecond {
			m.off.Store(true)
		}
	}
	m.inside.Add(-1)
}

func (m *meetRepo) StoreMachine(s *server.Machine) error {
	m.meet()
	return m.Repository.StoreMachine(s)
}

func (m *meetRepo) FindMachine(ik string) (*server.Machine, error) {
	m.meet()
	return m.Repository.FindMachine(ik)
}

func (m *meetRepo) FindAllMachines() []*server.Machine {
	m.meet()
	return m.Repository.FindAllMachines()
}

func (m *meetRepo) DeleteMachine(ik string) error {
	m.meet()
	return m.Repository.DeleteMachine(ik)
}

func checkCrowd(r *eng.Rec, c *Crowd) error {
	repo := &meetRepo{Repository: server.NewRepositoryInMemory(nil)}
	all := newWorld(append([]Base{}, c.Bases...), repo, c.HTTP)
	all.quiet = true
	own := func(i int) *Base {
		b := c.Bases[c.Op.M%len(c.Bases)].sibling(i + 1)
		return &b
	}
	for i := range c.Bases {
		if err := all.create(&c.Bases[i]); err != nil {
			return err
		}
	}
	if c.Own && c.Op.Op != "create" {
		for i := 0; i < c.N; i++ {
			if err := all.create(own(i)); err != nil {
				return err
			}
		}
	}
	ws := make([]*world, c.N)
	for i := range ws {
		w := &world{svc: all.svc, raw: all.raw, quiet: true, bases: append([]Base{}, c.Bases...), m: map[string]*mach{}, done: map[string]bool{}}
		if c.HTTP {
			w.http = &httpSvc{h: all.http.h, under: all.raw}
			w.svc = w.http
		}
		if c.Own {
			w.bases[c.Op.M%len(c.Bases)] = *own(i)
		}
		for k, m := range all.m {
			w.m[k] = m
		}
		ws[i] = w
	}
	errs := make([]error, c.N)
	repo.n = int32(c.N)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			o := c.Op
			if p := eng.Try(func() { errs[i] = ws[i].do(&o) }); p != nil {
				errs[i] = fail("call panics", "%v", p)
			}
		}()
	}
	close(start)
	wg.Wait()
	repo.n = 0
	for i, err := range errs {
		if err != nil {
			return fail(fmt.Sprintf("one of %d calls at the same time: %v", c.N, err), "%s (call %d)", c.Op.Op, i)
		}
	}
	if c.Own {
		for i, w := range ws {
			ik := own(i).model().ik
			if m := w.m[ik]; m != nil {
				all.m[ik] = m
			} else {
				delete(all.m, ik)
			}
		}
	}
	if err := all.audit(fmt.Sprintf("%d concurrent calls of %s", c.N, c.Op.Op)); err != nil {
		return err
	}
	met := "calls one after the other"
	if repo.met.Load() > 1 {
		met = "calls that met inside the back end"
	}
	r.Eval(c, c.N > 1, met, "crowd "+c.Op.Op)
	return nil
}

func crowds(yield func(*Crowd) bool) {
	bases := []Base{
		{Alg: "des", Bdk: "0123456789abcdeffedcba9876543210", Ksn: "FFFF9876543210E00001"},
		{Alg: "aes", Kt: "AES128", Bdk: "0123456789abcdeffedcba9876543210", Ksn: "123456789012345600000001"},
	}
	ops := append(append([]SOp{}, plainOps[1:]...),
		SOp{Op: "mac", Msg: Hex("data"), Act: "response", Mac: "hmac"}, SOp{Op: "get", Ik: "unknown"}, SOp{Op: "mac", Msg: Hex("data"), Mac: "cmac", Ik: "unknown"},
		SOp{Op: "encpin", Pin: "12", Pan: "4012345678909", Fmt: "ISO-0"}, SOp{Op: "create"}, SOp{Op: "delete"})
	i := 0
	for _, n := range []int{2, 3, 5, 8, 9, 12, 17, 33, 65, 101, 129, 257, 520, 1030} {
		if n > 300 && eng.Cfg.Tier != "thorough" && n < 1000 {
			continue
		}
		for _, op := range ops {
			for m := range bases {
				for _, http := range []bool{false, true} {
					for _, own := range []bool{false, true} {
						switch op.Op {
						case "create", "delete", "next":
							if !own {
								continue
							}
						case "list":
							if own || m > 0 {
								continue
							}
						default:
							if own && op.Ik != "" {
								continue
							}
						}
						op.M = m
						i++
						if eng.Mine(i) && !yield(&Crowd{Bases: bases, Op: op, N: n, HTTP: http, Own: own}) {
							return
						}
					}
				}
			}
		}
	}
}
