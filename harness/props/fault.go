package props

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"syscall"

	"verifharness/eng"

	"github.com/moov-io/dukpt/pkg/server"
	"pgregory.net/rapid"
)

// FOp is an operation during which the storage back end may fail.
type FOp struct {
	SOp
	Fault int `json:"fault,omitempty"` // 1 fails before its effect, 2 after it (finding: along with the machine); 3, 4: the same, but finding works
	Err   int `json:"err,omitempty"`   // kind of error
}

// FHist is a history of such operations.
type FHist struct {
	Bases []Base `json:"bases"`
	Ops   []FOp  `json:"ops"`
	HTTP  bool   `json:"http,omitempty"`
	Watch int    `json:"watch,omitempty"`
}

func (h *FHist) Smaller() (r []FHist) {
	for i := range h.Ops {
		d := FHist{Bases: h.Bases, HTTP: h.HTTP, Watch: h.Watch}
		d.Ops = append(append(d.Ops, h.Ops[:i]...), h.Ops[i+1:]...)
		r = append(r, d)
	}
	return
}

var errBackend = errors.New("storage back end unavailable")

type backendErr struct{ n int }

func (e *backendErr) Error() string { return fmt.Sprintf("back end failure %d", e.n) }

// listErr is an error that cannot be compared.
type listErr []error

func (l listErr) Error() string { return fmt.Sprint([]error(l)) }

// tempErr is an error of the kind that network packages have.
type tempErr struct{ late bool }

func (e tempErr) Error() string   { return "back end is busy" }
func (e tempErr) Timeout() bool   { return e.late }
func (e tempErr) Temporary() bool { return true }

// otherErrors are those that code around a back end is likely to know.
var otherErrors = []error{
	context.Canceled, context.DeadlineExceeded, fmt.Errorf("store: %w", context.Canceled), fmt.Errorf("store: %w", context.DeadlineExceeded),
	os.ErrDeadlineExceeded, os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrClosed, os.ErrInvalid,
	&os.PathError{Op: "open", Path: "machines", Err: syscall.ENOENT}, &os.PathError{Op: "write", Path: "machines", Err: syscall.ENOSPC},
	io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, syscall.EAGAIN, syscall.EINTR, syscall.ECONNREFUSED, syscall.EPIPE,
	net.ErrClosed, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNRESET}, &net.DNSError{Err: "no such host", Name: "db", IsNotFound: true},
	sql.ErrNoRows, sql.ErrTxDone, sql.ErrConnDone, driver.ErrBadConn, fmt.Errorf("select: %w", sql.ErrNoRows),
	http.ErrHandlerTimeout, http.ErrServerClosed, errors.ErrUnsupported,
	tempErr{}, tempErr{true}, &backendErr{404}, listErr{errBackend}, listErr{server.ErrNotFound},
	errors.New("not found"), errors.New("already exists"), errors.New("duplicate key"), errors.New("deadlock detected"), errors.New("read-only"),
	fmt.Errorf("insert: %w", server.ErrAlreadyExists), fmt.Errorf("select: %w", server.ErrNotFound),
	errors.Join(errBackend, server.ErrNotFound), errors.Join(server.ErrAlreadyExists, errBackend), errors.Join(errBackend, io.EOF),
}

func faultError(kind int) error {
	if kind > 4 {
		return otherErrors[(kind-5)%len(otherErrors)]
	}
	switch kind {
	case 1:
		return &backendErr{kind}
	case 2:
		return fmt.Errorf("query: %w", errBackend)
	case 3:
		return fmt.Errorf("%w: row vanished", server.ErrNotFound)
	case 4:
		return server.ErrAlreadyExists
	}
	return errBackend
}

// faultRepo is a back end that fails when told to. It keeps its machines in
// the repository's own in-memory store.
type faultRepo struct {
	server.Repository
	fault  int
	writes bool // only storing and deleting fail
	err    error
	hit    bool
}

func (f *faultRepo) StoreMachine(m *server.Machine) error {
	switch f.fault {
	case 1:
		f.hit = true
		return f.err
	case 2:
		f.hit = true
		if err := f.Repository.StoreMachine(m); err != nil {
			return err
		}
		return f.err
	}
	return f.Repository.StoreMachine(m)
}

func (f *faultRepo) FindMachine(ik string) (*server.Machine, error) {
	if f.writes {
		return f.Repository.FindMachine(ik)
	}
	switch f.fault {
	case 1:
		f.hit = true
		return nil, f.err
	case 2:
		f.hit = true
		m, err := f.Repository.FindMachine(ik)
		if err != nil {
			return nil, err
		}
		return m, f.err
	}
	return f.Repository.FindMachine(ik)
}

func (f *faultRepo) DeleteMachine(ik string) error {
	switch f.fault {
	case 1:
		f.hit = true
		return f.err
	case 2:
		f.hit = true
		if err := f.Repository.DeleteMachine(ik); err != nil {
			return err
		}
		return f.err
	}
	return f.Repository.DeleteMachine(ik)
}

// emptyResult: the answer to a failed request carries nothing but its error.
func emptyResult(err error) string {
	var h *httpErr
	if !errors.As(err, &h) {
		return ""
	}
	var obj map[string]any
	if json.Unmarshal([]byte(h.body), &obj) != nil {
		return ""
	}
	for k, v := range obj {
		if k == "error" || k == "Error" {
			continue
		}
		switch x := v.(type) {
		case nil:
			continue
		case string:
			if x == "" {
				continue
			}
		case []any:
			if len(x) == 0 {
				continue
			}
		}
		return fmt.Sprintf("member %q of the failed answer is %v", k, v)
	}
	return ""
}

func (w *world) doFault(repo *faultRepo, o *FOp) error {
	ik := w.ikOf(&o.SOp)
	m := w.m[ik]
	sent := faultError(o.Err)
	fault := o.Fault
	if fault > 2 {
		fault -= 2
		if o.Op != "create" && o.Op != "delete" {
			return w.do(&o.SOp)
		}
	}
	repo.fault, repo.writes, repo.err, repo.hit = fault, o.Fault > 2, sent, false
	defer func() { repo.fault = 0 }()
	what := fmt.Sprintf("%s of %s with failing back end (fault %d, error %q)", o.Op, ik, o.Fault, sent)
	var err error
	check := func(is bool) error {
		if err == nil {
			return fail("storage failure becomes success", "%s", what)
		}
		if eng.IsPanic(err) {
			return fail("storage failure crashes", "%s: %v", what, err)
		}
		if is && w.http == nil && !errors.Is(err, sent) && err.Error() != sent.Error() {
			return fail("back end's error is lost", "%s: got %v", what, err)
		}
		if w.http != nil {
			var h *httpErr
			if errors.As(err, &h) {
				if h.status < 400 {
					return fail("storage failure becomes success", "%s: status %d", what, h.status)
				}
			}
			if p := emptyResult(err); p != "" {
				return fail("failed call has a result", "%s: %s", what, p)
			}
		}
		w.done[fmt.Sprintf("fault %d in %s", o.Fault, o.Op)] = true
		return nil
	}
	try := func(f func()) {
		if p := eng.Try(f); p != nil {
			err = p
		}
	}
	switch o.Op {
	case "create":
		b := &w.bases[o.M%len(w.bases)]
		want := b.model()
		arg := b.machine()
		if arg == nil && w.http != nil {
			return nil
		}
		try(func() { err = w.svc.CreateMachine(arg) })
		dup := want != nil && w.m[want.ik] != nil
		if e := check(want != nil && (fault == 1 && repo.hit || !dup)); e != nil {
			return e
		}
		if fault == 2 && want != nil && !dup {
			w.m[want.ik] = want
		}
		if w.http == nil {
			scribble(arg)
		}
	case "delete":
		try(func() { err = w.svc.DeleteMachine(ik) })
		if err == nil && m == nil && !repo.hit {
			return nil // there was nothing to ask the back end for
		}
		if e := check(true); e != nil {
			return e
		}
		if fault == 2 {
			delete(w.m, ik)
		}
	case "get", "next":
		var g *server.Machine
		try(func() {
			if o.Op == "get" {
				g, err = w.svc.GetMachine(ik)
			} else {
				g, err = w.svc.MakeNextKSN(ik)
			}
		})
		if e := check(false); e != nil {
			return e
		}
		if g != nil && w.http == nil {
			return fail("failed call returns a machine", "%s: %+v", what, *g)
		}
	case "list":
		repo.fault = 0
		return w.list(w.svc)
	default:
		c := Call{Fn: "des." + o.Op, Msg: o.Msg, IV: o.IV}
		if m != nil {
			c = o.call(m)
		}
		var s string
		s, err = invoke(w.svc, &o.SOp, ik, &c)
		if e := check(false); e != nil {
			return e
		}
		if s != "" {
			return fail("failed call has a result", "%s: %q", what, clip(s))
		}
	}
	return nil
}

func checkFault(r *eng.Rec, h *FHist) error {
	repo := &faultRepo{Repository: server.NewRepositoryInMemory(nil)}
	w := newWorld(h.Bases, repo, h.HTTP)
	w.quiet = h.Watch > 0
	faults := 0
	for i := range h.Ops {
		o := &h.Ops[i]
		var err error
		if o.Fault != 0 {
			faults++
			err = w.doFault(repo, o)
		} else {
			err = w.do(&o.SOp)
		}
		if err == nil && watched(h.Watch, i, len(h.Ops)) {
			err = w.audit(fmt.Sprintf("%s (fault %d)", o.Op, o.Fault))
		}
		if err != nil {
			h.Ops = h.Ops[:i+1]
			return err
		}
	}
	r.Eval(h, faults > 0, w.classes()...)
	return nil
}

func drawFault(t *rapid.T) FHist {
	g := G{t}
	p := profile{unk: 15, wild: 12, weight: map[string]int{"create": 5, "get": 3, "list": 1, "delete": 3, "next": 4, "encpin": 2, "decpin": 2, "mac": 2, "enc": 2, "dec": 2}}
	p.http = g.n(3) == 2
	h := FHist{HTTP: p.http, Watch: g.watch()}
	for n := 1 + g.n(3); n > 0; n-- {
		h.Bases = append(h.Bases, g.base(h.Bases, &p))
	}
	for i := range h.Bases {
		if g.n(3) != 2 {
			h.Ops = append(h.Ops, FOp{SOp: SOp{Op: "create", M: i}})
		}
	}
	down := 0
	for n := 1 + g.n(14); n > 0; n-- {
		o := FOp{SOp: g.sop(h.Bases, &p)}
		if g.n(5) == 4 {
			var prev []SOp
			for i := range h.Ops {
				prev = append(prev, h.Ops[i].SOp)
			}
			if e, ok := g.echo(prev, h.Bases, &p); ok {
				o.SOp = e
			}
		}
		if down == 0 && g.one(4) {
			down = 1 + g.n(4)
		}
		if down > 0 {
			down--
			o.Fault = 1 + g.n(4)
			if o.Err = g.n(9); o.Err > 4 {
				o.Err = 5 + g.n(len(otherErrors))
			}
		}
		h.Ops = append(h.Ops, o)
	}
	return h
}
