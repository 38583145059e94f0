// Package eng runs groups of generated checks: it draws cases with rapid,
// executes the deterministic check of each case, shrinks failures, keeps the
// coverage counters, and re-executes saved cases without rapid.
package eng

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Group is one family of cases of a property.
type Group struct {
	Name   string
	run    func(g *Group, r *Rec) *Violation
	replay func(r *Rec, raw json.RawMessage) error
	fuzz   func(r *Rec) func(*rapid.T)
}

// Property is what one check decides.
type Property struct {
	ID     string
	Rule   string
	Groups []*Group
}

// Violation is a failing case.
type Violation struct {
	Property string          `json:"property"`
	Group    string          `json:"group"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
	Seed     uint64          `json:"seed"`
	Shard    int             `json:"shard"`
	Tier     string          `json:"tier"`
	How      string          `json:"how"`
}

// Cfg comes from the environment (set by check.py).
var Cfg struct {
	Prop, Mode, Tier, Out, Repo, Replay, Bin, Only string
	Seed                                           uint64
	Shard, Shards                                  int
	Deadline                                       time.Time
	Scale                                          float64
}

// Quick tells the tier.
func Quick() bool { return Cfg.Tier != "thorough" }

// Rec collects what a run covered.
type Rec struct {
	mu       sync.Mutex
	off      bool
	evals    int64
	extra    int64 // distinct non-trivial units that need no hashing
	hashes   map[uint64]struct{}
	classes  map[string]int64
	samples  []json.RawMessage
	sampled  map[string]int
	groups   map[string]int64
	group    string
	skipped  int64
	inflight int
}

func newRec() *Rec {
	return &Rec{hashes: map[uint64]struct{}{}, classes: map[string]int64{}, sampled: map[string]int{}, groups: map[string]int64{}}
}

// Eval counts one evaluated unit (an input, call, request or history). unit
// identifies it; distinct is measured over units that are non-trivial.
func (r *Rec) Eval(unit any, nontrivial bool, classes ...string) {
	if r.off {
		return
	}
	raw, err := json.Marshal(unit)
	if err != nil {
		panic(err)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	r.groups[r.group]++
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(r.group))
		h.Write(raw)
		if len(r.hashes) < 4_000_000 {
			r.hashes[h.Sum64()] = struct{}{}
		}
	}
	for _, c := range classes {
		r.classes[c]++
	}
	if nontrivial && r.sampled[r.group] < 3 && len(raw) < 1500 && r.groups[r.group]%17 == 3 {
		r.sampled[r.group]++
		r.samples = append(r.samples, raw)
	}
}

// Class only counts a class.
func (r *Rec) Class(c string) { r.ClassN(c, 1) }

func (r *Rec) ClassN(c string, n int64) {
	if r.off {
		return
	}
	r.mu.Lock()
	r.classes[c] += n
	r.mu.Unlock()
}

// EvalRange counts n units of an enumeration that are distinct by
// construction.
func (r *Rec) EvalRange(n int64, nontrivial int64) {
	if r.off {
		return
	}
	r.mu.Lock()
	r.evals += n
	r.extra += nontrivial
	r.groups[r.group] += n
	r.mu.Unlock()
}

// Sample adds a sample explicitly.
func (r *Rec) Sample(unit any) {
	if r.off {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.sampled[r.group] < 3 {
		if raw, err := json.Marshal(unit); err == nil && len(raw) < 1500 {
			r.sampled[r.group]++
			r.samples = append(r.samples, raw)
		}
	}
}

// HarnessError is a fault of the checking machinery, not of the code.
type HarnessError struct{ Msg string }

func (h HarnessError) Error() string { return "harness: " + h.Msg }

// Harness aborts the run with an error exit.
func Harness(format string, a ...any) {
	panic(HarnessError{fmt.Sprintf(format, a...)})
}

// Die ends the process with an error exit.
func Die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", a...)
	os.Exit(3)
}

// Try runs code under test; a panic becomes an error of type *Panic.
func Try(f func()) (err error) {
	done := false
	defer func() {
		if done {
			return
		}
		x := recover()
		if x == nil {
			// runtime.Goexit inside f
			err = &Panic{"runtime.Goexit", ""}
			return
		}
		if h, ok := x.(HarnessError); ok {
			panic(h)
		}
		err = &Panic{fmt.Sprint(x), string(debug.Stack())}
	}()
	f()
	done = true
	return nil
}

// Panic is a panic of the code under test.
type Panic struct{ Val, Stack string }

func (p *Panic) Error() string {
	lines := strings.Split(p.Stack, "\n")
	where := ""
	for _, l := range lines {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, Cfg.Repo+"/"); i >= 0 {
			where = " at " + strings.Fields(l[i:])[0]
			break
		}
	}
	return "panic: " + p.Val + where
}

// IsPanic reports a *Panic.
func IsPanic(err error) bool { var p *Panic; return errors.As(err, &p) }

// ---- current case bookkeeping (for crashes and hangs) ----

var cur struct {
	f      *os.File
	gen    atomic.Int64
	active atomic.Bool
	mu     sync.Mutex
	raw    []byte
	group  string
	start  time.Time
	cpu    time.Duration
	gid    int
}

func setCurrent(group string, raw []byte) {
	cur.mu.Lock()
	cur.raw, cur.group = raw, group
	cur.start = time.Now()
	cur.mu.Unlock()
	cur.gen.Add(1)
	cur.active.Store(true)
	if cur.f != nil {
		b := make([]byte, 0, len(raw)+len(group)+16)
		b = binary.LittleEndian.AppendUint32(b, uint32(len(group)))
		b = binary.LittleEndian.AppendUint32(b, uint32(len(raw)))
		b = append(b, group...)
		b = append(b, raw...)
		cur.f.WriteAt(b, 0)
	}
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// HangAfter is how long one case may take before it is looked at, set high
// because a case takes milliseconds.
var HangAfter = 60 * time.Second

// watchdog reports a case that blocks forever or spins. A case that is merely
// slow on a busy machine ends the run with an error exit.
func watchdog() {
	lastGen := int64(-1)
	var since time.Time
	var cpu0 time.Duration
	for {
		time.Sleep(200 * time.Millisecond)
		g := cur.gen.Load()
		if cur.active.Load() && heapBytes() > 2<<30 {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			if g == cur.gen.Load() && strings.Contains(string(buf), "github.com/moov-io/dukpt/") {
				cur.mu.Lock()
				raw, group := append([]byte{}, cur.raw...), cur.group
				cur.mu.Unlock()
				finish(&Violation{Group: group, Case: raw, Message: "call consumes memory without bound on this case"})
			}
			Die("out of memory in group %s", cur.group)
		}
		if !cur.active.Load() || g != lastGen {
			lastGen, since, cpu0 = g, time.Now(), cpuTime()
			continue
		}
		if time.Since(since) < HangAfter {
			continue
		}
		used := cpuTime() - cpu0
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		stacks := string(buf)
		inRepo := strings.Contains(stacks, "github.com/moov-io/dukpt")
		verdict := ""
		switch {
		case inRepo && used > HangAfter/2:
			verdict = "does not terminate (consumes CPU without end)"
		case inRepo && used < 5*time.Second && blockedInRepo(stacks):
			verdict = "blocks forever"
		}
		cur.mu.Lock()
		raw, group := append([]byte{}, cur.raw...), cur.group
		cur.mu.Unlock()
		if verdict == "" {
			fmt.Fprintln(os.Stderr, stacks)
			Die("case of group %s has not ended after %v (cpu %v): %s", group, time.Since(since), used, raw)
		}
		v := &Violation{Group: group, Case: raw, Message: "call " + verdict + " on this case"}
		os.WriteFile(filepath.Join(Cfg.Out, fmt.Sprintf("hang.%d", Cfg.Shard)), buf, 0o644)
		finish(v)
	}
}

func heapBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// blockedInRepo: some goroutine with repository frames sits in a lock or
// channel operation.
func blockedInRepo(stacks string) bool {
	for _, g := range strings.Split(stacks, "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if !strings.Contains(g, "github.com/moov-io/dukpt") {
			continue
		}
		for _, s := range []string{"sync.Mutex.Lock", "sync.RWMutex", "semacquire", "chan receive", "chan send", "select", "sync.Cond.Wait", "sync.WaitGroup.Wait"} {
			if strings.Contains(head, s) {
				return true
			}
		}
	}
	return false
}

// ---- building groups ----

type myTB struct {
	name   string
	failed bool
	log    []string
}

func (t *myTB) Helper()                   {}
func (t *myTB) Name() string              { return t.name }
func (t *myTB) Logf(f string, a ...any)   { t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *myTB) Log(a ...any)              { t.log = append(t.log, fmt.Sprint(a...)) }
func (t *myTB) Skipf(f string, a ...any)  { runtime.Goexit() }
func (t *myTB) Skip(a ...any)             { runtime.Goexit() }
func (t *myTB) SkipNow()                  { runtime.Goexit() }
func (t *myTB) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *myTB) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *myTB) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *myTB) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *myTB) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *myTB) Fail()                     { t.failed = true }
func (t *myTB) Failed() bool              { return t.failed }

func mix(a uint64, s string, b uint64) uint64 {
	h := fnv.New64a()
	binary.Write(h, binary.LittleEndian, a)
	h.Write([]byte(s))
	binary.Write(h, binary.LittleEndian, b)
	v := h.Sum64()
	v ^= v >> 31
	v *= 0x9E3779B97F4A7C15
	v ^= v >> 29
	if v == 0 {
		v = 1
	}
	return v
}

func setFlag(name, val string) {
	if err := flag.Set(name, val); err != nil {
		Die("flag %s: %v", name, err)
	}
}

// runCase executes one case with bookkeeping.
func runCase[C any](g *Group, r *Rec, c *C, check func(*Rec, *C) error) error {
	raw, err := json.Marshal(c)
	if err != nil {
		Harness("case does not marshal: %v", err)
	}
	setCurrent(g.Name, raw)
	err = check(r, c)
	cur.active.Store(false)
	return err
}

// quickFactor scales the case counts of the quick tier.
const quickFactor = 2

// Prop makes a group whose cases are drawn by rapid. quick and thorough are
// the total numbers of cases over all shards.
func Prop[C any](name string, quick, thorough int, draw func(*rapid.T) C, check func(*Rec, *C) error) *Group {
	g := &Group{Name: name}
	g.run = func(g *Group, r *Rec) *Violation {
		n := quickFactor * quick
		if !Quick() {
			n = thorough
		}
		n = int(float64(n) * Cfg.Scale)
		n = (n + Cfg.Shards - 1) / Cfg.Shards
		if n <= 0 {
			return nil
		}
		seed := mix(Cfg.Seed, Cfg.Prop+"/"+name, uint64(Cfg.Shard))
		setFlag("rapid.checks", strconv.Itoa(n))
		setFlag("rapid.seed", strconv.FormatUint(seed, 10))
		var last *Violation
		var harness any
		var failedAt time.Time
		slow := false
		tb := &myTB{name: Cfg.Prop + "_" + name}
		done := make(chan struct{})
		go func() {
			defer close(done)
			rapid.Check(tb, func(t *rapid.T) {
				if time.Now().After(Cfg.Deadline) && last == nil {
					r.mu.Lock()
					r.skipped++
					r.mu.Unlock()
					return
				}
				if last != nil && (slow || time.Since(failedAt) > 40*time.Second) {
					return // enough shrinking
				}
				c := draw(t)
				defer func() {
					if x := recover(); x != nil {
						if h, ok := x.(HarnessError); ok {
							harness = h
							t.Fatalf("harness error")
						}
						panic(x)
					}
				}()
				// only the first pass counts as coverage, not shrinking
				r.off = last != nil
				before, _ := json.Marshal(&c)
				t0 := time.Now()
				err := runCase(g, r, &c, check)
				if err != nil {
					if last == nil {
						failedAt, slow = time.Now(), time.Since(t0) > 5*time.Second
					}
					raw, merr := json.Marshal(&c)
					if merr != nil {
						raw = before
					}
					last = &Violation{Group: name, Case: raw, Message: err.Error()}
					t.Fatalf("%s", Key(err))
				}
			})
		}()
		<-done
		r.off = false
		if harness != nil {
			Die("%v", harness)
		}
		if last != nil {
			if !slow {
				minimise(g, r, last, check)
			}
			last.Seed = seed
			return last
		}
		if tb.failed {
			Die("rapid: %s", strings.Join(tb.log, "\n"))
		}
		return nil
	}
	g.replay = func(r *Rec, raw json.RawMessage) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			Die("replay case: %v", err)
		}
		return runCase(g, r, &c, check)
	}
	g.fuzz = func(r *Rec) func(*rapid.T) {
		return func(t *rapid.T) {
			c := draw(t)
			if err := runCase(g, r, &c, check); err != nil {
				raw, _ := json.Marshal(&c)
				v := &Violation{Group: name, Case: raw, Message: err.Error()}
				SaveViolation(v, fmt.Sprintf("violation.fuzz.%d.json", os.Getpid()))
				t.Fatalf("%s", err)
			}
		}
	}
	return g
}

// Smaller is implemented by cases that can propose smaller variants of
// themselves (rapid is weak at deleting from lists).
type Smaller[C any] interface{ Smaller() []C }

// minimise replaces the failing case by smaller ones that fail alike.
func minimise[C any](g *Group, r *Rec, v *Violation, check func(*Rec, *C) error) {
	key, _, _ := strings.Cut(v.Message, ":")
	end := time.Now().Add(20 * time.Second)
	r.off = true
	defer func() { r.off = false }()
	for progress := true; progress; {
		progress = false
		var c C
		if json.Unmarshal(v.Case, &c) != nil {
			return
		}
		sm, ok := any(&c).(Smaller[C])
		if !ok {
			return
		}
		for _, d := range sm.Smaller() {
			if time.Now().After(end) {
				return
			}
			d := d
			raw, err := json.Marshal(&d)
			if err != nil || len(raw) >= len(v.Case) {
				continue
			}
			if err := runCase(g, r, &d, check); err != nil {
				if k, _, _ := strings.Cut(err.Error(), ":"); k == key {
					if raw2, e := json.Marshal(&d); e == nil && len(raw2) <= len(raw) {
						raw = raw2
					}
					v.Case, v.Message = raw, err.Error()
					progress = true
					break
				}
			}
		}
	}
}

// Key is the fixed part of an error's text, so that rapid recognises the same
// failure while shrinking.
func Key(err error) string {
	s := err.Error()
	if i := strings.IndexByte(s, ':'); i > 0 {
		s = s[:i]
	}
	return s
}

// Enum makes a group of enumerated cases. gen yields this shard's cases.
func Enum[C any](name string, gen func(yield func(*C) bool), check func(*Rec, *C) error) *Group {
	g := &Group{Name: name}
	g.run = func(g *Group, r *Rec) *Violation {
		var v *Violation
		gen(func(c *C) bool {
			if time.Now().After(Cfg.Deadline) {
				r.mu.Lock()
				r.skipped++
				r.mu.Unlock()
				return false
			}
			if err := runCase(g, r, c, check); err != nil {
				raw, _ := json.Marshal(c)
				v = &Violation{Group: name, Case: raw, Message: err.Error()}
				return false
			}
			return true
		})
		return v
	}
	g.replay = func(r *Rec, raw json.RawMessage) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			Die("replay case: %v", err)
		}
		return runCase(g, r, &c, check)
	}
	return g
}

// Mine distributes enumeration indexes over shards.
func Mine(i int) bool { return i%Cfg.Shards == Cfg.Shard }

// ---- main ----

// SaveViolation writes a violation file into the output directory.
func SaveViolation(v *Violation, name string) {
	v.Property, v.Tier, v.Shard = Cfg.Prop, Cfg.Tier, Cfg.Shard
	v.How = "python3 /verif/check.py " + Cfg.Prop + " --replay <this file>"
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(filepath.Join(Cfg.Out, name), b, 0o644)
}

var finOnce sync.Mutex

func finish(v *Violation) {
	finOnce.Lock()
	SaveViolation(v, fmt.Sprintf("violation.%d.json", Cfg.Shard))
	os.Exit(1)
}

type shardStats struct {
	Evals   int64             `json:"evals"`
	Extra   int64             `json:"extra"`
	Hashes  int               `json:"hashes"`
	Skipped int64             `json:"skipped"`
	Classes map[string]int64  `json:"classes"`
	Groups  map[string]int64  `json:"groups"`
	Samples []json.RawMessage `json:"samples"`
	Rule    string            `json:"rule"`
	Corpus  int               `json:"corpus"`
}

func env(k string) string { return os.Getenv("VH_" + k) }

func envInt(k string, def int) int {
	if v, err := strconv.Atoi(env(k)); err == nil {
		return v
	}
	return def
}

// Setup reads the configuration.
func Setup() {
	Cfg.Prop, Cfg.Mode, Cfg.Tier = env("PROP"), env("MODE"), env("TIER")
	Cfg.Out, Cfg.Repo, Cfg.Replay, Cfg.Bin, Cfg.Only = env("OUT"), env("REPO"), env("REPLAY"), env("BIN"), env("ONLY")
	s, _ := strconv.ParseUint(env("SEED"), 10, 64)
	Cfg.Seed = s
	Cfg.Shard, Cfg.Shards = envInt("SHARD", 0), envInt("SHARDS", 1)
	Cfg.Deadline = time.Now().Add(time.Duration(envInt("BUDGET", 600)) * time.Second)
	Cfg.Scale = 1
	if f, err := strconv.ParseFloat(env("SCALE"), 64); err == nil {
		Cfg.Scale = f
	}
	if Cfg.Repo == "" {
		Cfg.Repo = "/repo"
	}
	if h := envInt("HANG", 0); h > 0 {
		HangAfter = time.Duration(h) * time.Second
	}
}

// Main runs the configured mode and exits.
func Main(props []*Property) {
	Setup()
	if Cfg.Mode == "merge" {
		merge()
		return
	}
	var p *Property
	for _, q := range props {
		if q.ID == Cfg.Prop {
			p = q
		}
	}
	if p == nil {
		Die("unknown property %q", Cfg.Prop)
	}
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", "15s")
	f, err := os.Create(filepath.Join(Cfg.Out, fmt.Sprintf("current.%d", Cfg.Shard)))
	if err != nil {
		Die("%v", err)
	}
	cur.f = f
	go watchdog()
	switch Cfg.Mode {
	case "replay":
		replay(p)
	case "run":
		run(p)
	default:
		Die("unknown mode %q", Cfg.Mode)
	}
}

func run(p *Property) {
	r := newRec()
	defer func() {
		if x := recover(); x != nil {
			if h, ok := x.(HarnessError); ok {
				Die("%v", h)
			}
			panic(x)
		}
	}()
	times := map[string]float64{}
	corpus := replayCorpus(p, r)
	for _, g := range p.Groups {
		if Cfg.Only != "" && Cfg.Only != g.Name {
			continue
		}
		r.group = g.Name
		t0 := time.Now()
		v := g.run(g, r)
		times[g.Name] = time.Since(t0).Seconds()
		if v != nil {
			finish(v)
		}
	}
	if env("VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "shard %d: %v\n", Cfg.Shard, times)
	}
	hs := make([]byte, 0, 8*len(r.hashes))
	for h := range r.hashes {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	if err := os.WriteFile(filepath.Join(Cfg.Out, fmt.Sprintf("hashes.%d", Cfg.Shard)), hs, 0o644); err != nil {
		Die("%v", err)
	}
	b, err := json.Marshal(shardStats{r.evals, r.extra, len(r.hashes), r.skipped, r.classes, r.groups, r.samples, p.Rule, corpus})
	if err != nil {
		Die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(Cfg.Out, fmt.Sprintf("stats.%d.json", Cfg.Shard)), b, 0o644); err != nil {
		Die("%v", err)
	}
	os.Exit(0)
}

// replayCorpus re-executes the saved cases of the property (committed
// regression inputs), distributed over the shards.
func replayCorpus(p *Property, r *Rec) int {
	files, _ := filepath.Glob(filepath.Join(env("CORPUS"), "*.json"))
	sort.Strings(files)
	n := 0
	for i, f := range files {
		if !Mine(i) {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			Die("%v", err)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			Die("%s: %v", f, err)
		}
		found := false
		for _, g := range p.Groups {
			if g.Name == v.Group {
				found = true
				r.group = g.Name
				if err := g.replay(r, v.Case); err != nil {
					v.Message = err.Error()
					finish(&v)
				}
			}
		}
		if !found {
			Die("%s: no group %q", f, v.Group)
		}
		n++
	}
	return n
}

func replay(p *Property) {
	b, err := os.ReadFile(Cfg.Replay)
	if err != nil {
		Die("%v", err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		Die("%v", err)
	}
	tries := envInt("TRIES", 1)
	for _, g := range p.Groups {
		if g.Name != v.Group {
			continue
		}
		r := newRec()
		r.group = g.Name
		for i := 0; i < tries; i++ {
			if err := g.replay(r, v.Case); err != nil {
				fmt.Printf("REPRODUCED (try %d): %v\n", i+1, err)
				v.Message = err.Error()
				SaveViolation(&v, fmt.Sprintf("violation.%d.json", Cfg.Shard))
				os.Exit(1)
			}
		}
		fmt.Println("NOT REPRODUCED")
		os.Exit(0)
	}
	Die("no group %q in %s", v.Group, p.ID)
}

// Fuzz makes a native fuzz target of a group (thorough tier).
func (g *Group) Fuzz() func(*rapid.T) {
	r := newRec()
	r.off = true
	if g.fuzz == nil {
		return nil
	}
	return g.fuzz(r)
}

// merge unites the shards' statistics into OUT/merged.json.
func merge() {
	out := shardStats{Classes: map[string]int64{}, Groups: map[string]int64{}}
	var all []uint64
	for s := 0; s < Cfg.Shards; s++ {
		b, err := os.ReadFile(filepath.Join(Cfg.Out, fmt.Sprintf("stats.%d.json", s)))
		if err != nil {
			Die("%v", err)
		}
		var st shardStats
		if err := json.Unmarshal(b, &st); err != nil {
			Die("%v", err)
		}
		out.Evals += st.Evals
		out.Extra += st.Extra
		out.Skipped += st.Skipped
		out.Rule = st.Rule
		out.Corpus += st.Corpus
		for k, v := range st.Classes {
			out.Classes[k] += v
		}
		for k, v := range st.Groups {
			out.Groups[k] += v
		}
		if len(out.Samples) < 12 {
			out.Samples = append(out.Samples, st.Samples...)
		}
		hb, err := os.ReadFile(filepath.Join(Cfg.Out, fmt.Sprintf("hashes.%d", s)))
		if err != nil {
			Die("%v", err)
		}
		for i := 0; i+8 <= len(hb); i += 8 {
			all = append(all, binary.LittleEndian.Uint64(hb[i:]))
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	n := 0
	for i := range all {
		if i == 0 || all[i] != all[i-1] {
			n++
		}
	}
	out.Hashes = n
	if len(out.Samples) > 12 {
		out.Samples = out.Samples[:12]
	}
	b, _ := json.Marshal(out)
	if err := os.WriteFile(filepath.Join(Cfg.Out, "merged.json"), b, 0o644); err != nil {
		Die("%v", err)
	}
	os.Exit(0)
}
