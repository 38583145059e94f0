package props

import (
	"encoding/hex"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"verifharness/eng"

	"github.com/moov-io/dukpt/pkg/server"
	"pgregory.net/rapid"
)

// CHist is a set of call sequences made concurrently.
type CHist struct {
	Bases   []Base  `json:"bases"`
	Setup   []SOp   `json:"setup,omitempty"` // made before, one after the other
	Threads [][]SOp `json:"threads"`
	Mode    string  `json:"mode"` // direct, http, yield (slow repository), repo (the repository alone)
	Reps    int     `json:"reps"`
	// Blind: the harness does nothing between the calls that would order them
	// for the race detector; the results are not put in an order.
	Blind bool `json:"blind,omitempty"`
}

func (h *CHist) Smaller() (r []CHist) {
	for i := range h.Threads {
		d := *h
		d.Threads = append(append([][]SOp{}, h.Threads[:i]...), h.Threads[i+1:]...)
		r = append(r, d)
		for j := range h.Threads[i] {
			d := *h
			d.Threads = append([][]SOp{}, h.Threads...)
			d.Threads[i] = append(append([]SOp{}, h.Threads[i][:j]...), h.Threads[i][j+1:]...)
			r = append(r, d)
		}
	}
	return
}

// yieldRepo is a slower repository: other calls get a chance around each of
// its operations.
type yieldRepo struct {
	server.Repository
	n atomic.Uint32
}

func (y *yieldRepo) pause() {
	for k := y.n.Add(1) % 4; k > 0; k-- {
		runtime.Gosched()
	}
}

func (y *yieldRepo) StoreMachine(m *server.Machine) error {
	y.pause()
	defer y.pause()
	return y.Repository.StoreMachine(m)
}

func (y *yieldRepo) FindMachine(ik string) (*server.Machine, error) {
	y.pause()
	defer y.pause()
	return y.Repository.FindMachine(ik)
}

func (y *yieldRepo) FindAllMachines() []*server.Machine {
	y.pause()
	defer y.pause()
	return y.Repository.FindAllMachines()
}

func (y *yieldRepo) DeleteMachine(ik string) error {
	y.pause()
	defer y.pause()
	return y.Repository.DeleteMachine(ik)
}

// event is one finished call as one machine sees it.
type event struct {
	o        *SOp
	op       string
	base     int
	from, to int64
	err      error
	g        *server.Machine
	ptr      *server.Machine // repository alone: the very machine
	s        string
	thread   int
}

func (e *event) String() string {
	out := "ok"
	switch {
	case e.err != nil:
		out = "error " + e.err.Error()
	case e.g != nil:
		out = "machine at KSN " + e.g.CurrentKSN
	case e.s != "":
		out = clip(e.s)
	}
	return fmt.Sprintf("[%d-%d thread %d] %s -> %s", e.from, e.to, e.thread, e.op, out)
}

// lstate is the state of one machine: nil is absent.
type lstate struct {
	m   *mach
	ptr *server.Machine
	key string
}

func stateOf(m *mach) *lstate {
	return &lstate{m: m, key: fmt.Sprintf("%q/%q/%q/%q/%x", m.b.Alg, m.b.Kt, m.b.Bdk, m.b.Ksn, m.cur)}
}

// lin decides whether the events of one machine have a sequential order.
type lin struct {
	ev    []*event
	bases []Base
	http  bool
	memo  map[string]bool
	next  map[string]*lstate
	calls map[string]bool
	steps int
}

func (l *lin) advance(s *lstate) *lstate {
	if n, ok := l.next[s.key]; ok {
		return n
	}
	var n *lstate
	if a := s.m.advanced(); a != nil {
		n = stateOf(a)
	}
	l.next[s.key] = n
	return n
}

func (l *lin) judge(i int, e *event, s *lstate) bool {
	k := fmt.Sprintf("%d/%s", i, s.key)
	if v, ok := l.calls[k]; ok {
		return v
	}
	c := e.o.call(s.m)
	why, open := e.o.refusal(s.m, &c)
	v := false
	switch {
	case why != "":
		v = e.err != nil
	case open:
		v = true
	default:
		v = e.err == nil && e.o.judge(&c, e.s, nil) == nil
	}
	l.calls[k] = v
	return v
}

// step applies event i in state s.
func (l *lin) step(i int, s *lstate) (*lstate, bool) {
	e := l.ev[i]
	switch e.op {
	case "create":
		if s != nil {
			return s, e.err != nil && (errors.Is(e.err, server.ErrAlreadyExists))
		}
		if e.err != nil {
			return s, false
		}
		if e.ptr != nil {
			return &lstate{ptr: e.ptr, key: fmt.Sprintf("%p", e.ptr)}, true
		}
		return stateOf(l.bases[e.base].model()), true
	case "delete":
		return nil, e.err == nil
	case "get":
		if s == nil {
			return s, e.err != nil && e.g == nil && errors.Is(e.err, server.ErrNotFound)
		}
		if s.ptr != nil {
			return s, e.err == nil && e.g == s.ptr
		}
		return s, e.err == nil && s.m.differs(e.g) == ""
	case "listed": // what a listing says about this machine
		if s == nil {
			return s, e.g == nil
		}
		if s.ptr != nil {
			return s, e.g == s.ptr
		}
		return s, e.g != nil && s.m.differs(e.g) == ""
	case "next":
		if s == nil {
			return s, e.err != nil
		}
		n := l.advance(s)
		if n == nil {
			return s, e.err != nil
		}
		if e.err != nil {
			return s, false
		}
		if l.http {
			return n, strings.EqualFold(e.g.CurrentKSN, hex.EncodeToString(n.m.cur))
		}
		return n, n.m.differs(e.g) == ""
	}
	if s == nil {
		return s, e.err != nil
	}
	return s, l.judge(i, e, s)
}

func (l *lin) search(done uint64, s *lstate) bool {
	if done == uint64(1)<<len(l.ev)-1 {
		return true
	}
	key := fmt.Sprintf("%x/", done)
	if s != nil {
		key += s.key
	}
	if v, ok := l.memo[key]; ok {
		return v
	}
	l.steps++
	if l.steps > 200000 {
		return true // inconclusive; counted by the caller
	}
	// an event may come first when no other remaining one ended before it began
	min := int64(1) << 62
	for i, e := range l.ev {
		if done>>i&1 == 0 && e.to < min {
			min = e.to
		}
	}
	r := false
	for i, e := range l.ev {
		if done>>i&1 == 1 || e.from > min {
			continue
		}
		if n, ok := l.step(i, s); ok && l.search(done|1<<i, n) {
			r = true
			break
		}
	}
	l.memo[key] = r
	return r
}

// concurrently runs the threads at once and returns when all have ended.
func concurrently(n int, f func(i int)) (crash error) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	errs := make([]error, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			errs[i] = eng.Try(func() { f(i) })
		}()
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func checkConc(r *eng.Rec, h *CHist) error {
	reps := h.Reps
	if reps < 1 {
		reps = 1
	}
	for i := 0; i < reps; i++ {
		if err := concOnce(r, h); err != nil {
			return err
		}
	}
	n := 0
	for _, t := range h.Threads {
		n += len(t)
	}
	r.Eval(h, n > 1, "mode "+h.Mode, fmt.Sprintf("threads %d", len(h.Threads)))
	return nil
}

func concOnce(r *eng.Rec, h *CHist) error {
	var repo server.Repository = server.NewRepositoryInMemory(nil)
	if h.Mode == "yield" {
		repo = &yieldRepo{Repository: repo}
	}
	svc := server.NewService(repo)
	if h.Mode == "http" {
		svc = newHTTPSvc(svc)
	}
	ikw := &world{bases: h.Bases}
	iks := map[string]bool{}
	for i := range h.Bases {
		if m := h.Bases[i].model(); m != nil {
			iks[m.ik] = true
		}
	}
	var clock atomic.Int64
	tick := func() int64 {
		if h.Blind {
			return 0
		}
		return clock.Add(1)
	}
	record := func(o *SOp, thread int) []*event {
		ik := ikw.ikOf(o)
		e := &event{o: o, op: o.Op, base: o.M % len(h.Bases), thread: thread}
		var all []*server.Machine
		b := &h.Bases[e.base]
		// prepare outside the interval
		var arg *server.Machine
		var c Call
		if o.Op == "create" {
			arg = b.machine()
			if h.Mode == "repo" {
				arg.InitialKey = ik
				e.ptr = arg
			}
		} else if isOper(o.Op) {
			c = Call{Fn: "des." + o.Op, Msg: o.Msg, IV: o.IV}
		}
		e.from = tick()
		if h.Mode == "repo" {
			switch o.Op {
			case "create":
				e.err = repo.StoreMachine(arg)
			case "delete":
				e.err = repo.DeleteMachine(ik)
			case "list":
				all = repo.FindAllMachines()
			default:
				e.op = "get"
				e.g, e.err = repo.FindMachine(ik)
			}
		} else {
			switch o.Op {
			case "create":
				e.err = svc.CreateMachine(arg)
			case "delete":
				e.err = svc.DeleteMachine(ik)
			case "list":
				all = svc.GetMachines()
			case "get":
				e.g, e.err = svc.GetMachine(ik)
			case "next":
				e.g, e.err = svc.MakeNextKSN(ik)
			default:
				e.s, e.err = invoke(svc, o, ik, &c)
			}
		}
		e.to = tick()
		if eng.IsPanic(e.err) {
			panic(e.err)
		}
		if o.Op != "list" {
			if !iks[ik] {
				return nil
			}
			if h.Mode != "repo" && e.g != nil { // read all of it now, under the race detector
				g := *e.g
				e.g = &g
			}
			return []*event{e}
		}
		var evs []*event
		got := map[string]*server.Machine{}
		for _, g := range all {
			if g == nil || !iks[g.InitialKey] {
				panic(fmt.Sprintf("listing contains %+v", g))
			}
			if got[g.InitialKey] != nil {
				panic("listing contains " + g.InitialKey + " twice")
			}
			if h.Mode == "repo" {
				got[g.InitialKey] = g
			} else {
				cp := *g
				got[g.InitialKey] = &cp
			}
		}
		for k := range iks {
			evs = append(evs, &event{o: &SOp{Op: "list", Ik: Str(k)}, op: "listed", base: -1, from: e.from, to: e.to, g: got[k], thread: thread})
		}
		return evs
	}
	per := map[string][]*event{}
	add := func(evs []*event) {
		for _, e := range evs {
			k := ikw.ikOf(e.o)
			per[k] = append(per[k], e)
		}
	}
	for i := range h.Setup {
		add(record(&h.Setup[i], -1))
	}
	got := make([][]*event, len(h.Threads))
	if crash := concurrently(len(h.Threads), func(i int) {
		for j := range h.Threads[i] {
			got[i] = append(got[i], record(&h.Threads[i][j], i)...)
		}
	}); crash != nil {
		return fail("concurrent call panics", "%v", crash)
	}
	if h.Blind {
		return nil
	}
	for _, evs := range got {
		add(evs)
	}
	add(record(&SOp{Op: "list"}, -1)) // what is left
	keys := []string{}
	for k := range per {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		ev := per[k]
		if len(ev) > 60 {
			eng.Harness("history too long: %d", len(ev))
		}
		l := &lin{ev: ev, bases: h.Bases, http: h.Mode == "http", memo: map[string]bool{}, next: map[string]*lstate{}, calls: map[string]bool{}}
		if !l.search(0, nil) {
			var sb strings.Builder
			sort.Slice(ev, func(i, j int) bool { return ev[i].from < ev[j].from })
			for _, e := range ev {
				fmt.Fprintf(&sb, "\n  %s", e)
			}
			return fail("no sequential order explains the concurrent calls", "machine %s:%s", k, sb.String())
		}
		if l.steps > 200000 {
			r.Class("inconclusive")
		}
	}
	return nil
}

func drawConc(t *rapid.T) CHist {
	g := G{t}
	h := CHist{Mode: pick(g, "direct", "yield", "http", "repo"), Reps: 2}
	p := profile{http: true, short: true, wild: 0, weight: map[string]int{"create": 4, "get": 4, "list": 2, "delete": 2, "next": 7, "encpin": 1, "mac": 2, "enc": 1, "dec": 1}}
	valid := func(prev []Base) Base {
		for {
			b := g.base(prev, &p)
			if b.model() != nil {
				return b
			}
		}
	}
	for n := 1 + g.n(2); n > 0; n-- {
		h.Bases = append(h.Bases, valid(h.Bases))
	}
	if g.n(3) != 0 {
		for i := range h.Bases {
			h.Setup = append(h.Setup, SOp{Op: "create", M: i})
		}
	}
	kind := g.n(4)
	threads := 2 + g.n(5)
	left := 24
	for i := 0; i < threads; i++ {
		var th []SOp
		for n := 1 + g.n(5); n > 0 && left > 0; n-- {
			left--
			o := g.sop(h.Bases, &p)
			switch {
			case kind == 1 && g.n(3) != 0:
				o = SOp{Op: "next"}
			case kind == 2 && g.n(3) != 0:
				o = SOp{Op: pick(g, "create", "delete", "create"), M: o.M}
			}
			if o.Op == "dec" {
				if h.Mode == "http" {
					o = SOp{Op: "get", M: o.M}
				} else {
					o.Raw, o.Msg = true, g.ubytes(16)
				}
			}
			if len(o.Msg) > 64 {
				o.Msg = o.Msg[:64]
				if o.Op != "dec" && h.Mode == "http" {
					o.Msg = latin(o.Msg)
				}
			}
			th = append(th, o)
		}
		h.Threads = append(h.Threads, th)
	}
	return h
}

// drawBlind draws calls to be made with nothing between them.
func drawBlind(t *rapid.T) CHist {
	g := G{t}
	h := CHist{Mode: pick(g, "repo", "direct", "repo", "http"), Reps: 2, Blind: true}
	p := profile{http: true, short: true, wild: 0}
	for len(h.Bases) < 1+g.n(4) {
		if b := g.base(h.Bases, &p); b.model() != nil {
			h.Bases = append(h.Bases, b)
		}
	}
	q := g.seed()
	for i := range h.Bases {
		if q.n(2) == 0 {
			h.Setup = append(h.Setup, SOp{Op: "create", M: i})
		}
	}
	for i := 2 + q.n(5); i > 0; i-- {
		var th []SOp
		for n := 1 + q.n(8); n > 0; n-- {
			o := SOp{Op: []string{"create", "create", "delete", "list", "list", "get", "next", "next", "mac", "enc", "encpin"}[q.n(11)], M: q.n(len(h.Bases))}
			for _, x := range plainOps {
				if x.Op == o.Op {
					m := o.M
					o = x
					o.M = m
				}
			}
			th = append(th, o)
		}
		h.Threads = append(h.Threads, th)
	}
	return h
}

// Hammer is many advances of few machines at once.
type Hammer struct {
	Base    Base   `json:"base"`
	Threads int    `json:"threads"`
	Each    int    `json:"each"`
	Readers int    `json:"readers"`
	Mode    string `json:"mode"`
	Races   int    `json:"races"` // rounds of concurrent creation and deletion
}

func checkHammer(r *eng.Rec, h *Hammer) error {
	var repo server.Repository = server.NewRepositoryInMemory(nil)
	if h.Mode == "yield" {
		repo = &yieldRepo{Repository: repo}
	}
	under := server.NewService(repo)
	svc := under
	if h.Mode == "http" {
		svc = newHTTPSvc(under)
	}
	m0 := h.Base.model()
	// concurrent creations: exactly one succeeds
	for i := 0; i < h.Races; i++ {
		var okc, dup atomic.Int32
		var other atomic.Value
		if crash := concurrently(h.Threads, func(int) {
			switch err := svc.CreateMachine(h.Base.machine()); {
			case err == nil:
				okc.Add(1)
			case errors.Is(err, server.ErrAlreadyExists):
				dup.Add(1)
			default:
				other.Store(err)
			}
		}); crash != nil {
			return fail("concurrent creation panics", "%v", crash)
		}
		if e := other.Load(); e != nil {
			return fail("concurrent creation fails", "%v", e)
		}
		if okc.Load() != 1 {
			return fail("concurrent creations", "%d of %d succeed", okc.Load(), h.Threads)
		}
		if err := svc.DeleteMachine(m0.ik); err != nil {
			return fail("deletion fails", "%v", err)
		}
	}
	if err := svc.CreateMachine(h.Base.machine()); err != nil {
		return fail("creation fails", "%v", err)
	}
	// the chain of states
	total := h.Threads * h.Each
	chain := []*mach{m0}
	pos := map[string]int{hex.EncodeToString(m0.cur): 0}
	for len(chain) <= total {
		n := chain[len(chain)-1].advanced()
		if n == nil {
			break
		}
		pos[hex.EncodeToString(n.cur)] = len(chain)
		chain = append(chain, n)
	}
	var mu sync.Mutex
	var first error
	report := func(err error) {
		mu.Lock()
		if first == nil && err != nil {
			first = err
		}
		mu.Unlock()
	}
	var used sync.Map
	var succeeded atomic.Int32
	see := func(g *server.Machine, last int) int {
		i, ok := pos[strings.ToLower(g.CurrentKSN)]
		if !ok {
			report(fail("KSN outside the machine's chain", "%s", g.CurrentKSN))
			return last
		}
		if g.TransactionKey != "" || g.InitialKey != "" {
			if d := chain[i].differs(g); d != "" {
				report(fail("torn machine", "%s", d))
			}
		}
		if i < last {
			report(fail("KSN goes back", "%s after position %d", g.CurrentKSN, last))
		}
		return i
	}
	mac := SOp{Op: "mac", Msg: Hex("hammer"), Act: "request", Mac: "cmac"}
	if crash := concurrently(h.Threads+h.Readers, func(i int) {
		last := 0
		for k := 0; k < h.Each; k++ {
			if i < h.Threads {
				g, err := svc.MakeNextKSN(m0.ik)
				if err != nil {
					if len(chain) > total {
						report(fail("advance fails", "%v", err))
					}
					continue
				}
				succeeded.Add(1)
				if _, dup := used.LoadOrStore(strings.ToLower(g.CurrentKSN), true); dup {
					report(fail("KSN used twice", "%s", g.CurrentKSN))
				}
				n := see(g, last)
				if n <= last && k > 0 {
					report(fail("KSN goes back", "%s after position %d", g.CurrentKSN, last))
				}
				last = n
				continue
			}
			switch k % 3 {
			case 0:
				g, err := svc.GetMachine(m0.ik)
				if err != nil {
					report(fail("getting fails", "%v", err))
					continue
				}
				last = see(g, last)
			case 1:
				l := svc.GetMachines()
				if len(l) != 1 {
					report(fail("listing", "%d machines", len(l)))
					continue
				}
				last = see(l[0], last)
			default:
				s, err := svc.GenerateMac(m0.ik, string(mac.Msg), string(mac.Act), string(mac.Mac))
				if err != nil {
					report(fail("MAC fails", "%v", err))
					continue
				}
				hit := false
				for j := last; j < len(chain) && !hit; j++ {
					c := mac.call(chain[j])
					if mac.judge(&c, s, nil) == nil {
						last, hit = j, true
					}
				}
				if !hit {
					report(fail("MAC under no key the machine had", "%s", s))
				}
			}
		}
	}); crash != nil {
		return fail("concurrent call panics", "%v", crash)
	}
	if first != nil {
		return first
	}
	want := total
	if len(chain)-1 < want {
		want = len(chain) - 1
	}
	if int(succeeded.Load()) != want {
		return fail("lost or extra advances", "%d succeeded, want %d", succeeded.Load(), want)
	}
	g, err := under.GetMachine(m0.ik)
	if err != nil {
		return fail("getting fails", "%v", err)
	}
	if d := chain[want].differs(g); d != "" {
		return fail("advances were lost", "after %d advances: %s", want, d)
	}
	r.Eval(h, true, "mode "+h.Mode)
	return nil
}

func drawHammer(t *rapid.T) Hammer {
	g := G{t}
	p := profile{http: true}
	threads := 2 + g.n(7)
	if q := g.seed(); q.n(12) == 0 { // a crowd
		threads = 16 << q.n(4)
	}
	h := Hammer{Threads: threads, Each: 2 + g.n(16), Readers: g.n(4), Mode: pick(g, "direct", "yield", "http"), Races: g.n(5)}
	for {
		h.Base = g.base(nil, &p)
		if h.Base.model() != nil {
			return h
		}
	}
}
