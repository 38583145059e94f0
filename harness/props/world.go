package props

import (
	"encoding/hex"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"verifharness/eng"
	"verifharness/ref"

	"github.com/moov-io/dukpt/pkg/server"
	"pgregory.net/rapid"
)

// Base is what a machine is created from.
type Base struct {
	Alg Str  `json:"alg"`
	Kt  Str  `json:"kt,omitempty"`
	Bdk Str  `json:"bdk"`
	Ksn Str  `json:"ksn"`
	Cur Str  `json:"cur,omitempty"` // preset current KSN
	IK  Str  `json:"ik,omitempty"`  // stale values in the given structure
	TK  Str  `json:"tk,omitempty"`
	Nil bool `json:"nil,omitempty"`
}

// mach is the model's machine.
type mach struct {
	b   Base
	ik  string
	cur []byte
	tk  []byte
}

func (b *Base) aes() bool { return b.Alg == "aes" }

// model derives the machine of a base by the reference; nil when the base has
// to be refused.
func (b *Base) model() *mach {
	if b.Nil || b.Alg != "des" && b.Alg != "aes" || !validHex(string(b.Bdk)) || !validHex(string(b.Ksn)) {
		return nil
	}
	bdk, _ := hex.DecodeString(string(b.Bdk))
	ksn, _ := hex.DecodeString(string(b.Ksn))
	cur := ksn
	if b.Cur != "" {
		var err error
		cur, err = hex.DecodeString(string(b.Cur))
		if err != nil || b.aes() && len(cur) != 12 || !b.aes() && len(cur) > 10 {
			return nil
		}
	}
	m := &mach{b: *b, cur: cur}
	if b.aes() {
		if !aesLenOK(len(bdk)) || len(ksn) != 12 {
			return nil
		}
		m.ik = hex.EncodeToString(ref.AesIK(bdk, ksn))
	} else {
		if len(bdk) != 16 || len(ksn) > 10 || len(ksn) < 4 {
			return nil
		}
		m.ik = hex.EncodeToString(ref.DesIK(bdk, ksn))
	}
	m.derive()
	return m
}

// oddType: an AES machine whose key type is not that of its key. Its creation
// may be accepted or refused; nothing can be computed with it.
func (b *Base) oddType() bool {
	return b.aes() && string(b.Kt) != "AES"+fmt.Sprint(len(b.Bdk)*4)
}

func (m *mach) derive() {
	ik, _ := hex.DecodeString(m.ik)
	if m.b.aes() {
		m.tk = ref.AesTK(ik, m.cur)
	} else {
		m.tk = ref.DesTK(ik, m.cur)
	}
}

// advanced is the machine after one advance, nil when its counter is exhausted.
func (m *mach) advanced() *mach {
	n := *m
	if m.b.aes() {
		c, ok := ref.NextCounter(uint64(ref.AesCounter(m.cur)), 32, 16)
		if !ok {
			return nil
		}
		n.cur = ref.SetAesCounter(m.cur, uint32(c))
	} else {
		c, ok := ref.NextCounter(uint64(ref.DesCounter(m.cur)), 21, 10)
		if !ok {
			return nil
		}
		n.cur = ref.SetDesCounter(m.cur, uint32(c))
	}
	n.derive()
	return &n
}

// differs tells in what a returned machine is not the model's.
func (m *mach) differs(g *server.Machine) string {
	switch {
	case g == nil:
		return "no machine"
	case g.InitialKey != m.ik:
		return fmt.Sprintf("initial key %s want %s", g.InitialKey, m.ik)
	case g.Algorithm != string(m.b.Alg) || g.AlgorithmKey != string(m.b.Kt) || g.BaseDerivativeKey != string(m.b.Bdk) || g.KeySerialNumber != string(m.b.Ksn):
		return fmt.Sprintf("base key %+v want %+v", g.BaseKey, m.b)
	case !strings.EqualFold(g.CurrentKSN, hex.EncodeToString(m.cur)):
		return fmt.Sprintf("current KSN %s want %x", g.CurrentKSN, m.cur)
	case !strings.EqualFold(g.TransactionKey, hex.EncodeToString(m.tk)):
		return fmt.Sprintf("transaction key %s want %x (KSN %x)", g.TransactionKey, m.tk, m.cur)
	}
	return ""
}

// SOp is one call of a service.
type SOp struct {
	Op   string `json:"op"`
	M    int    `json:"m"`              // index of the base
	Ik   Str    `json:"ik,omitempty"`   // instead of the base's initial key
	None bool   `json:"none,omitempty"` // nothing instead of it
	Pin  Str    `json:"pin,omitempty"`
	Pan  Str    `json:"pan,omitempty"`
	Fmt  Str    `json:"fmt,omitempty"`
	Act  Str    `json:"act,omitempty"`
	Mac  Str    `json:"mac,omitempty"`
	Msg  Hex    `json:"msg,omitzero"`
	IV   Hex    `json:"iv,omitzero"`
	Fill Hex    `json:"fill,omitzero"`  // nibbles of a PIN block that the reference makes
	Raw  bool   `json:"raw,omitempty"`  // Msg is the ciphertext itself
	Open bool   `json:"open,omitempty"` // the result is not looked at
	Case int    `json:"case,omitempty"`
	Bad  string `json:"bad,omitempty"` // iv or ct: replaced by Text
	Of   *SOp   `json:"of,omitempty"`  // a decryption takes the ciphertext of this one
	Text Str    `json:"text,omitempty"`
	Sty  int    `json:"sty,omitempty"` // how the HTTP request is written
}

// SHist is a history of calls.
type SHist struct {
	Bases []Base      `json:"bases"`
	Ops   []SOp       `json:"ops"`
	HTTP  bool        `json:"http,omitempty"`
	Wire  bool        `json:"wire,omitempty"`  // over a real connection
	Watch int         `json:"watch,omitempty"` // how seldom the state is looked at
	Heads [][2]string `json:"heads,omitempty"` // of all requests
	Clock bool        `json:"clock,omitempty"` // in simulated time, where waits can be long
}

// watched tells whether the state is looked at after operation i of n. Looking
// may itself repair what an operation broke, so it is left out in places.
func watched(watch, i, n int) bool { return i == n-1 || i%(watch+1) == watch }

func (g G) watch() int {
	if g.bool() {
		return 0
	}
	return pick(g, 1, 2, 4, 9, 1000)
}

// Smaller proposes histories with one operation or machine less.
func (h *SHist) Smaller() (r []SHist) {
	for i := range h.Ops {
		d := SHist{Bases: h.Bases, HTTP: h.HTTP, Wire: h.Wire, Watch: h.Watch, Clock: h.Clock, Heads: h.Heads}
		d.Ops = append(append(d.Ops, h.Ops[:i]...), h.Ops[i+1:]...)
		r = append(r, d)
	}
	for i, o := range h.Ops {
		if o.Case > 2 && (o.Op == "bulk" || o.Op == "run" || o.Op == "burst") {
			for _, k := range []int{o.Case / 2, o.Case * 7 / 8, o.Case - 1} {
				d := SHist{Bases: h.Bases, HTTP: h.HTTP, Wire: h.Wire, Watch: h.Watch, Clock: h.Clock, Heads: h.Heads}
				d.Ops = append(d.Ops, h.Ops...)
				d.Ops[i].Case = k
				r = append(r, d)
			}
		}
	}
	for i := range h.Bases {
		if len(h.Bases) == 1 {
			break
		}
		d := SHist{HTTP: h.HTTP, Wire: h.Wire, Watch: h.Watch, Clock: h.Clock, Heads: h.Heads}
		d.Bases = append(append(d.Bases, h.Bases[:i]...), h.Bases[i+1:]...)
		used := false
		for _, o := range h.Ops {
			used = used || o.M == i
			if o.M > i {
				o.M--
				if o.Op == "burst" {
					c := *o.Of
					c.M--
					o.Of = &c
				}
			}
			d.Ops = append(d.Ops, o)
		}
		if !used {
			r = append(r, d)
		}
	}
	return
}

// call is the library call that the operation stands for on machine m.
func (o *SOp) call(m *mach) Call {
	c := Call{Key: m.tk, Msg: o.Msg, IV: o.IV, Pin: o.Pin, Pan: o.Pan, Fmt: o.Fmt, Act: o.Act, Fill: o.Fill}
	fn := o.Op
	if m.b.aes() {
		c.Ksn = m.cur
		if fn == "mac" {
			fn = "c" + fn
			if o.Mac == "hmac" {
				fn = "hmac"
			}
		}
		c.Kt = ktOf(len(m.tk), fn == "hmac")
		c.Fn = "aes." + fn
	} else {
		if c.Fmt == "" {
			c.Fmt = "ISO-0"
		}
		c.Fn = "des." + fn
	}
	switch {
	case o.Of != nil:
		c.Msg, c.Fill = o.Of.call(m).Msg, nil
	case o.Op == "decpin" && o.Fill != nil:
		if f := ref.Family(strings.ToUpper(string(c.Fmt))); c.Fn == "des.decpin" && (f == "" || f == "iso4") {
			c = buildNear(c, 0, o.Fill) // not one of the formats: the block for the name closest to it
		} else if len(c.Pan) < 12 || c.Fn == "des.decpin" && len(c.Pan) < 13 {
			c = buildNear(c, int(o.Fill[15]), o.Fill) // refused where the PAN is needed: the block for a longer one
		} else {
			if m.b.aes() {
				c.Fill = c.Fill[:8]
			}
			c = build(&c)
			c.Fill = nil
		}
	case o.Op == "dec" && !o.Raw:
		if m.b.aes() {
			c.Msg = ref.AesEncData(c.Key, c.Ksn, c.IV, o.Msg, resp(c.Act))
		} else {
			c.Msg = ref.DesEncData(c.Key, c.IV, o.Msg, resp(c.Act))
		}
	}
	return c
}

// text of the hex parameter p.
func (o *SOp) text(p string, v Hex) string {
	if o.Bad == p {
		return string(o.Text)
	}
	return hexCase(v, o.Case)
}

// world runs a history on a service and follows it in the model.
type world struct {
	svc    server.Service // what is called (directly or over HTTP)
	raw    server.Service // the service below
	http   *httpSvc
	wire   *forward // below http: a real connection
	strict bool     // failures must look as C19 says
	quiet  bool     // nothing is called but the operations themselves
	bases  []Base
	m      map[string]*mach
	done   map[string]bool // operations that happened, for classes
}

func newWorld(bases []Base, repo server.Repository, http bool) *world {
	w := &world{bases: bases, m: map[string]*mach{}, done: map[string]bool{}}
	if repo == nil {
		repo = server.NewRepositoryInMemory(nil)
	}
	w.raw = server.NewService(repo)
	w.svc = w.raw
	if http {
		w.http = newHTTPSvc(w.raw)
		w.svc = w.http
	}
	return w
}

// ikOf is the key an operation addresses.
func (w *world) ikOf(o *SOp) string {
	if o.None {
		return ""
	}
	if o.Ik != "" {
		return string(o.Ik)
	}
	b := &w.bases[o.M%len(w.bases)]
	if m := b.model(); m != nil {
		return m.ik
	}
	return "00" + fmt.Sprint(o.M)
}

func (b *Base) machine() *server.Machine {
	if b.Nil {
		return nil
	}
	return &server.Machine{
		BaseKey:    server.BaseKey{Algorithm: string(b.Alg), AlgorithmKey: string(b.Kt), BaseDerivativeKey: string(b.Bdk), KeySerialNumber: string(b.Ksn)},
		InitialKey: string(b.IK), CurrentKSN: string(b.Cur), TransactionKey: string(b.TK),
	}
}

func scribble(m *server.Machine) {
	if m != nil {
		*m = server.Machine{BaseKey: server.BaseKey{Algorithm: "aes", AlgorithmKey: "x", BaseDerivativeKey: "scribble", KeySerialNumber: "scribble"}, InitialKey: "scribble", CurrentKSN: "FFFFFFFFFFFFFFFFFFFFFFFF", TransactionKey: "scribble"}
	}
}

// failed checks a call that had to fail.
func (w *world) failed(err error, sentinel error, what string) error {
	if err == nil {
		return fail("call succeeds that must fail", "%s", what)
	}
	if eng.IsPanic(err) {
		return fail("call panics", "%s: %v", what, err)
	}
	if sentinel != nil && !errors.Is(err, sentinel) && (w.http == nil || w.strict) {
		return fail("wrong error", "%s: %v, want %v", what, err, sentinel)
	}
	if w.http != nil {
		var h *httpErr
		if !errors.As(err, &h) {
			return fail("no HTTP answer", "%s: %v", what, err)
		}
		if w.strict && h.problem != "" {
			return fail("failed request is answered wrongly", "%s: %s (status %d, body %s)", what, h.problem, h.status, clip(h.body))
		}
	}
	return nil
}

func (w *world) ok(err error, what string) error {
	if err != nil {
		if eng.IsPanic(err) {
			return fail("call panics", "%s: %v", what, err)
		}
		return fail("call fails", "%s: %v", what, err)
	}
	return nil
}

// do performs one operation, compares its outcome with the model and moves the
// model.
func (w *world) do(o *SOp) error {
	ik := w.ikOf(o)
	m := w.m[ik]
	if w.http != nil {
		w.http.style = o.Sty
	}
	switch o.Op {
	case "wait":
		time.Sleep(time.Duration(o.Case) * time.Millisecond)
		w.done["waiting"] = true
	case "burst": // one call again and again
		for j := 0; j < o.Case; j++ {
			if err := w.do(o.Of); err != nil {
				return fail("call "+fmt.Sprint(j)+" of many: "+err.Error(), "%s", o.Of.Op)
			}
		}
		w.done["same call many times"] = true
	case "bulk": // many machines
		for j := 0; j < o.Case; j++ {
			b := w.bases[o.M%len(w.bases)].sibling(j)
			if err := w.create(&b); err != nil {
				return fail("machine "+fmt.Sprint(j)+" of many: "+err.Error(), "%d machines", len(w.m))
			}
		}
		w.done["many machines"] = true
	case "unbulk": // some of them go
		for j := 0; j < o.Case; j += 2 {
			b := w.bases[o.M%len(w.bases)].sibling(j)
			if m := b.model(); m != nil {
				if err := w.do(&SOp{Op: "delete", Ik: Str(m.ik)}); err != nil {
					return err
				}
			}
		}
	case "run": // many advances
		for j := 0; j < o.Case; j++ {
			d := SOp{Op: "next", M: o.M, Ik: o.Ik, None: o.None}
			if err := w.do(&d); err != nil {
				return fail("advance "+fmt.Sprint(j)+" of many: "+err.Error(), "%s", ik)
			}
			if m := w.m[ik]; m == nil || m.advanced() == nil && j%4 == 3 {
				break
			}
		}
		w.done["many advances"] = true
	case "create":
		return w.create(&w.bases[o.M%len(w.bases)])
	case "get":
		var g *server.Machine
		var err error
		if p := eng.Try(func() { g, err = w.svc.GetMachine(ik) }); p != nil {
			err = p
		}
		if m == nil {
			if g != nil {
				return fail("machine returned that does not exist", "%s", ik)
			}
			return w.failed(err, server.ErrNotFound, "getting unknown machine "+ik)
		}
		if e := w.ok(err, "getting "+ik); e != nil {
			return e
		}
		if d := m.differs(g); d != "" {
			return fail("got machine", "%s", d)
		}
		scribble(g)
		w.done["get"] = true
	case "list":
		return w.list(w.svc)
	case "delete":
		var err error
		if p := eng.Try(func() { err = w.svc.DeleteMachine(ik) }); p != nil {
			err = p
		}
		if e := w.ok(err, "deleting "+ik); e != nil {
			return e
		}
		if m != nil {
			w.done["deletion"] = true
		} else {
			w.done["deletion of nothing"] = true
		}
		delete(w.m, ik)
	case "next":
		var g *server.Machine
		var err error
		if p := eng.Try(func() { g, err = w.svc.MakeNextKSN(ik) }); p != nil {
			err = p
		}
		var n *mach
		if m != nil {
			n = m.advanced()
		}
		if n == nil {
			if g != nil && w.http == nil {
				return fail("failed advance returns a machine", "%s: %+v", ik, *g)
			}
			var sent error
			if m == nil && w.strict {
				sent = server.ErrNotFound
			}
			if m != nil {
				w.done["exhaustion"] = true
			}
			return w.failed(err, sent, fmt.Sprintf("advancing %s (known: %v)", ik, m != nil))
		}
		if e := w.ok(err, fmt.Sprintf("advancing %s at %x", ik, m.cur)); e != nil {
			return e
		}
		if w.http != nil {
			if !strings.EqualFold(g.CurrentKSN, hex.EncodeToString(n.cur)) {
				return fail("advanced KSN", "%s want %x", g.CurrentKSN, n.cur)
			}
		} else if d := n.differs(g); d != "" {
			return fail("advanced machine", "%s", d)
		}
		scribble(g)
		w.m[ik] = n
		w.done["advance"] = true
	default:
		return w.oper(o, ik, m)
	}
	return nil
}

// sibling is another device of the same base key.
func (b Base) sibling(j int) Base {
	ksn, err := hex.DecodeString(string(b.Ksn))
	if err != nil || len(ksn) < 5 || b.Nil {
		return b
	}
	ksn[1] ^= byte(j)
	ksn[0] ^= byte(j >> 8)
	b.Ksn = Str(hexCase(ksn, j%3))
	b.Cur = ""
	return b
}

func (w *world) create(b *Base) error {
	want := b.model()
	arg := b.machine()
	if w.http != nil && b.Nil {
		return nil
	}
	var err error
	if p := eng.Try(func() { err = w.svc.CreateMachine(arg) }); p != nil {
		err = p
	}
	what := fmt.Sprintf("creating %+v", *b)
	switch {
	case want != nil && b.oddType() && err != nil:
		// may be refused as well as accepted
		if e := w.failed(err, nil, what); e != nil {
			return e
		}
	case want == nil:
		if e := w.failed(err, nil, what); e != nil {
			return e
		}
		w.done["refused creation"] = true
	case w.m[want.ik] != nil:
		if e := w.failed(err, server.ErrAlreadyExists, what+" again"); e != nil {
			return e
		}
		w.done["duplicate creation"] = true
	default:
		if e := w.ok(err, what); e != nil {
			return e
		}
		if arg.InitialKey != want.ik {
			return fail("created machine", "initial key %s want %s", arg.InitialKey, want.ik)
		}
		if w.http != nil {
			if d := want.differs(arg); d != "" {
				return fail("created machine", "%s", d)
			}
		}
		w.m[want.ik] = want
		w.done["creation"] = true
	}
	if w.http == nil {
		scribble(arg)
	}
	return nil
}

func isOper(op string) bool {
	switch op {
	case "encpin", "decpin", "mac", "enc", "dec":
		return true
	}
	return false
}

// invoke makes the service call of a PIN, MAC or data operation.
func invoke(svc server.Service, o *SOp, ik string, c *Call) (s string, err error) {
	iv := o.text("iv", c.IV)
	ct := o.text("ct", c.Msg)
	if p := eng.Try(func() {
		switch o.Op {
		case "encpin":
			s, err = svc.EncryptPin(ik, string(o.Pin), string(o.Pan), string(o.Fmt))
		case "decpin":
			s, err = svc.DecryptPin(ik, ct, string(o.Pan), string(o.Fmt))
		case "mac":
			s, err = svc.GenerateMac(ik, string(o.Msg), string(o.Act), string(o.Mac))
		case "enc":
			s, err = svc.EncryptData(ik, string(o.Msg), string(o.Act), iv)
		case "dec":
			s, err = svc.DecryptData(ik, ct, string(o.Act), iv)
		default:
			eng.Harness("operation %q", o.Op)
		}
	}); p != nil {
		err = p
	}
	return
}

// refusal is the reason why the operation must fail on m; open says that its
// outcome is not specified.
func (o *SOp) refusal(m *mach, c *Call) (why string, open bool) {
	switch {
	case o.Bad != "" && !validHex(string(o.Text)):
		return "malformed hex", false
	case o.Bad != "":
		return "", true
	case m.b.aes() && o.Op == "mac" && o.Mac != "cmac" && o.Mac != "hmac":
		return "MAC type", false
	case m.b.oddType() && o.Op == "mac" && o.Mac == "hmac" && strings.HasPrefix(string(m.b.Kt), "HMAC"):
		return "", true
	case m.b.oddType():
		return "key type", false
	}
	if why = mustFail(c); why != "" {
		return why, false
	}
	if o.Of != nil { // a PIN block made for other arguments
		return "", o.Op != "dec"
	}
	bs := 8
	if m.b.aes() {
		bs = 16
	}
	switch o.Op {
	case "mac":
		open = !m.b.aes() && len(o.Msg) == 0
	case "dec":
		open = len(c.Msg)%bs != 0 || o.Raw
		if o.Raw && len(c.Msg)%bs == 0 {
			open = false
		}
	case "decpin":
		open = o.Fill == nil || !digits(o.Pin) || !digits(o.Pan) || len(o.Pin) > 12 || len(o.Pan) > 19
	case "encpin":
		open = !digits(o.Pin) || !digits(o.Pan) || len(o.Pin) > 12 || len(o.Pan) > 19
	}
	if !m.b.aes() && (!ascii(o.Fmt) || strings.EqualFold(string(o.Fmt), "ISO-4")) {
		open = true
	}
	open = open || o.Open
	return
}

func digits(s Str) bool { return strings.Trim(string(s), "0123456789") == "" }

// judge compares the outcome of an operation on machine state m with the
// standard. The call must be o.call(m).
func (o *SOp) judge(c *Call, s string, err error) error {
	out, e := asOut(c, s, err)
	if e != nil {
		return e
	}
	switch o.Op {
	case "decpin":
		return verifyDecPin(c, out)
	case "encpin":
		if c.Fn == "aes.encpin" && c.Fmt != "" {
			d := *c
			d.Fmt = ""
			return verify(&d, out)
		}
	}
	return verify(c, out)
}

func (w *world) oper(o *SOp, ik string, m *mach) error {
	what := fmt.Sprintf("%s on %s", o.Op, ik)
	if m == nil {
		c := Call{Fn: "des." + o.Op, Msg: o.Msg, IV: o.IV}
		s, err := invoke(w.svc, o, ik, &c)
		if s != "" {
			return fail("result for an unknown machine", "%s: %q", what, clip(s))
		}
		var sent error
		if w.strict {
			sent = server.ErrNotFound
		}
		w.done["operation on unknown machine"] = true
		return w.failed(err, sent, what+" (unknown)")
	}
	c := o.call(m)
	s, err := invoke(w.svc, o, ik, &c)
	if eng.IsPanic(err) {
		return fail("call panics", "%s: %v", what, err)
	}
	why, open := o.refusal(m, &c)
	switch {
	case why != "":
		w.done["operation refused"] = true
		if s != "" {
			return fail("failed call has a result", "%s (%s): %q", what, why, clip(s))
		}
		return w.failed(err, nil, what+" with wrong "+why)
	case o.Of != nil && o.Op == "dec" && w.http != nil && !utf8.Valid(ref8(&c)):
		return nil // cannot be written as JSON text
	case open:
		if o.Of != nil {
			if e := o.sameAsLibrary(w, &c, s, err, what); e != nil {
				return e
			}
		}
		if err != nil && w.http != nil {
			return w.failed(err, nil, what)
		}
		return nil
	}
	if e := w.ok(err, what); e != nil {
		return e
	}
	w.done[o.Op] = true
	if e := o.judge(&c, s, nil); e != nil {
		return fail("service "+e.Error(), "%s at KSN %x", what, m.cur)
	}
	if w.quiet {
		return nil
	}
	// what was encrypted at this KSN decrypts at it
	switch o.Op {
	case "encpin":
		o2 := SOp{Op: "decpin", Pan: o.Pan, Fmt: o.Fmt, Case: o.Case}
		c2 := c
		c2.Fn = c.Fn[:4] + "decpin"
		b, _ := hex.DecodeString(s)
		c2.Msg = b
		s2, err := invoke(w.svc, &o2, ik, &c2)
		if err != nil {
			return fail("own PIN block does not decrypt", "%s: %v", what, err)
		}
		if e := verifyDecPin(&c2, Out{S: s2}); e != nil {
			return fail("round trip "+e.Error(), "%s", what)
		}
	case "enc":
		o2 := SOp{Op: "dec", Act: o.Act, Case: o.Case}
		c2 := c
		c2.Fn = c.Fn[:4] + "dec"
		b, _ := hex.DecodeString(s)
		c2.Msg = b
		s2, err := invoke(w.svc, &o2, ik, &c2)
		if err != nil {
			return fail("own ciphertext does not decrypt", "%s: %v", what, err)
		}
		bs := 8
		if m.b.aes() {
			bs = 16
		}
		want := string(o.Msg)
		for len(want)%bs != 0 {
			want += "\x00"
		}
		if s2 != want {
			return fail("round trip", "%s: %q want %q", what, clip(s2), clip(want))
		}
	}
	return nil
}

// ref8 is what the standard decrypts the call's ciphertext to.
func ref8(c *Call) []byte {
	if c.Fn == "aes.dec" {
		return ref.AesDecData(c.Key, c.Ksn, c.IV, c.Msg, resp(c.Act))
	}
	return ref.DesDecData(c.Key, c.IV, c.Msg, resp(c.Act))
}

// sameAsLibrary compares the decryption of a PIN block that was made for other
// arguments with the library's, which sees these arguments alone.
func (o *SOp) sameAsLibrary(w *world, c *Call, s string, err error, what string) error {
	d := *c
	if d.Fn == "aes.decpin" {
		d.Fmt = ""
	}
	l := exec(&d)
	if eng.IsPanic(l.Err) {
		return nil
	}
	w.done["PIN block of other arguments"] = true
	if (l.Err == nil) != (err == nil) || l.Err == nil && utf8.ValidString(l.S) && l.S != s {
		return fail("PIN block of other arguments", "%s: %q (error %v), the library says %q (error %v)", what, clip(s), err, clip(l.S), l.Err)
	}
	return nil
}

// list compares the complete content of a service with the model.
func (w *world) list(svc server.Service) error {
	var all []*server.Machine
	if p := eng.Try(func() { all = svc.GetMachines() }); p != nil {
		return fail("listing panics", "%v", p)
	}
	seen := map[string]bool{}
	for _, g := range all {
		if g == nil {
			return fail("listing", "contains nil")
		}
		m := w.m[g.InitialKey]
		if m == nil {
			return fail("listing", "contains machine %s that should not exist", g.InitialKey)
		}
		if seen[g.InitialKey] {
			return fail("listing", "contains machine %s twice", g.InitialKey)
		}
		seen[g.InitialKey] = true
		if d := m.differs(g); d != "" {
			return fail("listed machine", "%s: %s", g.InitialKey, d)
		}
		scribble(g)
	}
	if len(seen) != len(w.m) {
		miss := []string{}
		for ik := range w.m {
			if !seen[ik] {
				miss = append(miss, ik)
			}
		}
		sort.Strings(miss)
		return fail("listing", "misses machines %v", miss)
	}
	return nil
}

// audit looks at everything the service below holds.
func (w *world) audit(after string) error {
	if w.quiet {
		if err := w.auditEach(after); err != nil {
			return err
		}
	}
	if err := w.list(w.raw); err != nil {
		return fail("state: "+err.Error(), "after %s", after)
	}
	return w.auditEach(after)
}

func (w *world) auditEach(after string) error {
	for ik, m := range w.m {
		var g *server.Machine
		var err error
		if p := eng.Try(func() { g, err = w.raw.GetMachine(ik) }); p != nil {
			err = p
		}
		if err != nil {
			return fail("state: stored machine is not found", "%s after %s: %v", ik, after, err)
		}
		if d := m.differs(g); d != "" {
			return fail("state: stored machine", "%s after %s: %s", ik, after, d)
		}
		scribble(g)
	}
	return nil
}

func (w *world) classes() (r []string) {
	for k := range w.done {
		r = append(r, k)
	}
	return
}

// ---- generators ----

func latin(b []byte) Hex {
	if utf8.Valid(b) {
		return b
	}
	r := make([]rune, len(b))
	for i := range b {
		r[i] = rune(b[i])
	}
	return Hex(string(r))
}

type profile struct {
	http   bool
	badKsn bool           // bases with a KSN of wrong length
	weight map[string]int // of the operations
	wild   int            // one in wild operations has damaged arguments
	types  bool           // AES machines with a key type that is not their key's
	unk    int            // one in unk operations addresses an unknown machine
	short  bool           // no long messages, no crowds of machines, no runs of advances
}

func (g G) base(prev []Base, p *profile) Base {
	mk := func(alg string, bdk, ksn Hex) Base {
		b := Base{Alg: Str(alg), Bdk: Str(hexCase(bdk, g.n(3))), Ksn: Str(hexCase(ksn, g.n(3)))}
		if alg == "aes" {
			b.Kt = ktOf(len(bdk), false)
			if p.types && g.one(25) {
				b.Kt = pick[Str](g, "", "", "aes128", "aes192", "Aes256", "AES128", "AES192", "AES256", "HMAC128", "HMAC256", "TDES2", "AES-128", "AES", " AES128", "AES128 ", "128", Str(specialText(g.seed())))
				if p.http {
					b.Kt = Str(strings.ToValidUTF8(string(b.Kt), "?"))
				}
			}
		} else if g.one(8) {
			b.Kt = pick[Str](g, "AES128", "aes128", "AES256", "TDES2", "TDES", "des", "none", " ")
		}
		return b
	}
	near := func(k Hex, aes bool) Hex { // close to exhaustion
		p := g.seed()
		if aes {
			v := uint32(0xFFFF0000)
			if p.n(3) > 0 {
				v = uint32([]uint64{0xFFFF0000 - 1, 0xFFFEC000, 0xFFFEFFFF, 0xFFFE8000, 0xFFFF0001}[p.n(5)])
			}
			return ref.SetAesCounter(k, v)
		}
		v := uint32(0x1FF800)
		if p.n(3) > 0 {
			v = []uint32{0x1FF7FF, 0x1FF400, 0x1FF200, 0x1FF000, 0x1FF801, 0x1FFFFF}[p.n(6)]
		}
		return ref.SetDesCounter(k, v)
	}
	fresh := func() Base {
		if g.bool() {
			k := g.desKsn()
			if g.one(5) {
				k = near(k, false)
			}
			return mk("des", g.key(16), k)
		}
		k := g.aesKsn()
		if g.one(5) {
			k = near(k, true)
		}
		return mk("aes", g.key(g.aesLen()), k)
	}
	var good []Base
	for _, b := range prev {
		if b.model() != nil {
			good = append(good, b)
		}
	}
	if len(good) > 0 {
		b := pick(g, good...)
		bdk, _ := hex.DecodeString(string(b.Bdk))
		ksn, _ := hex.DecodeString(string(b.Ksn))
		b.Cur, b.IK, b.TK = "", "", ""
		switch g.n(9) {
		case 0, 1: // same device, other counter or letter case
			if g.bool() {
				if b.aes() {
					ksn = ref.SetAesCounter(ksn, g.counter32())
				} else {
					ksn = ref.SetDesCounter(ksn, g.counter21())
				}
			}
			if !b.aes() && g.bool() { // written with another number of leading FF bytes
				if len(ksn) > 4 && ksn[0] == 0xFF {
					ksn = ksn[1:]
				} else if len(ksn) < 10 {
					ksn = append([]byte{0xFF}, ksn...)
				}
			}
			return mk(string(b.Alg), bdk, ksn)
		case 2: // a device close by
			if b.aes() {
				ksn[g.n(8)] ^= 1 << g.n(8)
			} else {
				i := g.n(len(ksn) - 2)
				if i == len(ksn)-3 {
					ksn[i] ^= 0x20 << g.n(3)
				} else {
					ksn[i] ^= 1 << g.n(8)
				}
			}
			return mk(string(b.Alg), bdk, ksn)
		case 3: // another key for the same device
			return mk(string(b.Alg), g.key(len(bdk), bdk), ksn)
		case 4: // the same BDK for the other algorithm
			if len(bdk) == 16 {
				if b.aes() {
					return mk("des", bdk, g.desKsn())
				}
				return mk("aes", bdk, g.aesKsn())
			}
		}
	}
	b := fresh()
	switch g.n(12) {
	case 0, 1: // has to be refused
		bdk, _ := hex.DecodeString(string(b.Bdk))
		k := g.n(6)
		if k == 5 && !p.badKsn {
			k = g.n(5)
		}
		if q := g.seed(); !p.http && q.n(5) == 0 { // a preset KSN that is none
			l := []string{"zz", "0", string(b.Ksn) + "0", string(b.Ksn) + "00", "00" + string(b.Ksn), " " + string(b.Ksn), "0x" + string(b.Ksn), string(b.Ksn) + string(b.Ksn), "00000000000000000000000000", strings.Repeat("f", 26), strings.Repeat("0", 64)}
			if len(b.Ksn) > 0 {
				l = append(l, string(b.Ksn)[1:], string(b.Ksn)[:len(b.Ksn)-1])
			}
			if b.aes() {
				l = append(l, "00", hexCase(q.bytes(11), 0), hexCase(q.bytes(10), 0), hexCase(q.bytes(8), 0), hexCase(q.bytes(4), 0))
			}
			c := b
			c.Cur = Str(l[q.n(len(l))])
			if c.model() == nil {
				return c
			}
		}
		switch k {
		case 0:
			b.Alg = pick[Str](g, "", "DES", "AES", "tdes", "3des", "des ", "aes128", "rsa")
		case 1:
			b.Bdk = Str(g.badHex(string(b.Bdk)))
			if validHex(string(b.Bdk)) {
				b.Bdk = "xy"
			}
		case 2:
			b.Bdk = Str(hexCase(append(bdk, g.byteVal()), 0))
		case 3:
			b.Bdk = Str(hexCase(g.ubytes(pick(g, 0, 1, 7, 8, 15, 17, 31, 33, 40)), 0))
		case 4:
			b.Ksn = Str(g.badHex(string(b.Ksn)))
			if validHex(string(b.Ksn)) {
				b.Ksn = "0g"
			}
			if g.one(3) && !p.http {
				b = Base{Nil: true}
			}
		case 5:
			if b.aes() {
				b.Ksn = Str(hexCase(g.ubytes(pick(g, 0, 1, 3, 7, 8, 9, 10, 11, 13, 16, 24)), 0))
			} else {
				b.Ksn = Str(hexCase(g.ubytes(pick(g, 11, 12, 13, 16, 20)), 0))
			}
		}
	case 2, 3:
		if !p.http {
			ksn, _ := hex.DecodeString(string(b.Ksn))
			if b.aes() {
				ksn = ref.SetAesCounter(ksn, g.counter32())
			} else {
				ksn = ref.SetDesCounter(ksn, g.counter21())
			}
			if g.bool() {
				b.Cur = Str(hexCase(ksn, g.n(3)))
			}
			if len(good) > 0 && g.one(4) { // at the KSN of another machine, or just before it
				o := pick(g, good...)
				if m := o.model(); o.Alg == b.Alg {
					if n := m.advanced(); n != nil && g.bool() {
						m = n
					}
					b.Cur = Str(hexCase(m.cur, g.n(3)))
					if g.bool() {
						b.Bdk, b.Kt = o.Bdk, o.Kt
					}
				}
			}
			if g.bool() {
				b.IK = Str(hex.EncodeToString(g.ubytes(16)))
				if len(prev) > 0 {
					if m := prev[g.n(len(prev))].model(); m != nil {
						b.IK = Str(m.ik)
					}
				}
			}
			if g.bool() {
				b.TK = Str(hex.EncodeToString(g.ubytes(16)))
			}
		}
	}
	return b
}

var nameWords = []string{"list", "all", "new", "machines", "machine", "ping", "current", "null", "undefined", "*", "_", "-1", "%!", "%s%d", "%!s(MISSING)", "{ik}", ":ik", "$1", "true", "index.html", "favicon.ico", "health", "count", "search", "default", "latest", "self", "me", "status", "info", "ready", "metrics", "version", "config", "admin", "debug", "batch", "import", "export", "backup", "stats", "help", "random", "first", "last", "any", "test", "id", "ids", "names", "aes", "des", "0", "1", "create", "delete", "encrypt_pin", "keys", "key", "docs", "openapi.json", "robots.txt", "LIST", "List", "not found", "already exists", "invalid dukpt machine", "error", "generate_ksn", "0000000000000000", "~", "?", "#", "a?b=c", "a#b", "a;b", "é", "\U0001F511"}

// nameGrid is every operation on every name that might mean something else than
// a machine, while there is a machine.
func nameGrid(http bool) func(yield func(*SHist) bool) {
	bases := []Base{
		{Alg: "des", Bdk: "0123456789abcdeffedcba9876543210", Ksn: "FFFF9876543210E00001"},
		{Alg: "aes", Kt: "AES128", Bdk: "0123456789abcdeffedcba9876543210", Ksn: "123456789012345600000001"},
	}
	return func(yield func(*SHist) bool) {
		names := append([]string{}, nameWords...)
		if !http {
			names = append(names, "")
		}
		for b := 1; b < 256; b++ {
			if s := string(rune(b)); s != "/" && s != "." {
				names = append(names, s, "x"+s, s+"x")
			}
		}
		for i, name := range names {
			if !eng.Mine(i) {
				continue
			}
			for m := range bases {
				h := SHist{Bases: bases, HTTP: http, Ops: []SOp{{Op: "create", M: m}}}
				if http && m == 0 { // the machine is named elsewhere
					h.Heads = [][2]string{{"Cookie", "ik={ik}; machine={ik}"}, {"X-Machine", "{ik}"}, {"X-Ik", "{ik}"}, {"X-Initial-Key", "{ik}"}, {"X-Machine-Id", "{ik}"}, {"Authorization", "Bearer {ik}"}}
				}
				for _, op := range plainOps[1:] {
					op.M = m
					if op.Op != "list" {
						op.Ik, op.None = Str(name), name == ""
					}
					h.Ops = append(h.Ops, op)
				}
				h.Ops = append(h.Ops, SOp{Op: "delete", M: m, Ik: Str(name), None: name == ""}, SOp{Op: "get", M: m})
				if !yield(&h) {
					return
				}
			}
		}
	}
}

// plainOps are well-formed operations.
var plainOps = []SOp{
	{Op: "create"}, {Op: "get"}, {Op: "list"}, {Op: "next"},
	{Op: "encpin", Pin: "1234", Pan: "4012345678909", Fmt: "ISO-0"},
	{Op: "decpin", Msg: Hex{1, 2, 3, 4, 5, 6, 7, 8}, Pan: "4012345678909", Fmt: "ISO-0"},
	{Op: "mac", Msg: Hex("data"), Act: "request", Mac: "cmac"},
	{Op: "enc", Msg: Hex("data"), Act: "request", IV: Hex{}},
	{Op: "dec", Msg: make(Hex, 16), Act: "response", IV: Hex{}},
}

// oddName is a name that might mean something else than a machine.
func oddName(p *prng, http bool) string {
	words := nameWords
	s := words[p.n(len(words))]
	if p.n(2) == 0 {
		s = specialText(p)
	}
	if http {
		s = strings.ToValidUTF8(strings.ReplaceAll(s, "/", "-"), "-")
	}
	if s == "" || strings.Trim(s, ".") == "" {
		return "list"
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// nearIk is a name that might be taken for the machine's.
func (m *mach) nearIk(p *prng) string {
	ik := m.ik
	switch p.n(22) {
	case 0, 1:
		return strings.ToUpper(ik)
	case 2:
		b, _ := hex.DecodeString(ik)
		return hexCase(b, 2)
	case 3:
		return strings.ToUpper(ik[:1+p.n(4)]) + ik[1+p.n(4):]
	case 4:
		return ik[:6]
	case 5:
		return ik[:8]
	case 6:
		return ik[:16]
	case 7:
		return ik[:len(ik)-1-p.n(3)]
	case 8:
		return ik[1+p.n(3):]
	case 9:
		return ik[len(ik)/2:]
	case 10:
		return ik + p.digits(1+p.n(2))
	case 11:
		return ik + ik
	case 12:
		return "0x" + ik
	case 13:
		return " " + ik
	case 14:
		return ik + []string{" ", "\n", "\t", "\r\n", ".", ":", "*", "%", "\x00", ".json", ",", ";"}[p.n(12)]
	case 15, 16:
		b := []byte(ik)
		b[p.n(len(b))] = "0123456789abcdef"[p.n(16)]
		return string(b)
	case 17:
		return string(m.b.Bdk)
	case 18:
		return string(m.b.Ksn)
	case 19:
		if len(m.cur) > 0 {
			return hex.EncodeToString(m.cur)
		}
		return "0"
	case 20:
		if n := m.advanced(); n != nil {
			return hex.EncodeToString(n.tk)
		}
		return hex.EncodeToString(m.tk)
	default: // digits exchanged
		b := []byte(ik)
		i := p.n(len(b) - 1)
		b[i], b[i+1] = b[i+1], b[i]
		return string(b)
	}
}

// serviceMsg is short except in one of 400 operations.
func (g G) serviceMsg(bs int, p *profile) Hex {
	if !p.short && g.seed().n(400) == 0 {
		return g.longMsg(p.http)
	}
	m := g.msg(bs)
	if len(m) > 600 {
		m = m[:600]
	}
	return m
}

var opOrder = []string{"create", "get", "list", "delete", "next", "encpin", "decpin", "mac", "enc", "dec"}

func (g G) sop(bases []Base, p *profile) SOp {
	total := 0
	for _, k := range opOrder {
		total += p.weight[k]
	}
	x := g.n(total)
	o := SOp{}
	for _, k := range opOrder {
		if x < p.weight[k] {
			o.Op = k
			break
		}
		x -= p.weight[k]
	}
	o.M = g.n(len(bases))
	if o.Op != "create" && o.Op != "list" && p.unk > 0 && g.one(p.unk) {
		o.Ik = Str(pick(g, "unknown", "0", "ffffffffffffffffffffffffffffffff", hex.EncodeToString(g.ubytes(16)), hex.EncodeToString(g.ubytes(15)), "machine", "%41", "a b", "é"))
		switch g.n(5) {
		case 3:
			o.Ik = Str(oddName(g.seed(), p.http))
		case 4:
			if !p.http {
				o.Ik = Str(g.seed().bytes(1 + g.n(20)))
			}
		}
		if m := bases[o.M].model(); m != nil && g.bool() {
			o.Ik = Str(m.nearIk(g.seed()))
		}
		if !p.http && o.Ik != "" && g.seed().n(12) == 0 {
			o.None = true
		}
	}
	if !isOper(o.Op) {
		return o
	}
	alg := bases[o.M].Alg
	bs := 8
	if alg == "aes" {
		bs = 16
	}
	o.Act = g.action()
	o.Case = g.n(3)
	switch o.Op {
	case "encpin", "decpin":
		o.Pin, o.Pan, o.Fmt = g.pin(), g.pan(13), g.format()
		if g.one(4) {
			o.Fmt = ""
		}
		if o.Op == "decpin" {
			o.Fill = g.ubytes(16)
		}
		o.Act = ""
	case "mac":
		o.Msg = g.serviceMsg(bs, p)
		o.Mac = pick[Str](g, "cmac", "hmac")
		if alg == "des" && g.bool() {
			o.Mac = pick[Str](g, "", "cmac", "hmac", "other")
		}
	case "enc", "dec":
		o.Msg = g.serviceMsg(bs, p)
		o.IV = g.iv(bs)
		if o.Op == "dec" && !p.http && g.bool() {
			o.Raw = true
			o.Msg = g.bytesN(bs * g.n(6))
		}
	}
	if p.wild > 0 && g.one(p.wild) {
		g.damage(&o, p)
	}
	if p.http {
		if o.Op != "decpin" && !o.Raw {
			o.Msg = latin(o.Msg)
		}
		for _, s := range []*Str{&o.Pin, &o.Pan, &o.Fmt, &o.Act, &o.Mac, &o.Text} {
			*s = Str(latin([]byte(*s)))
		}
	}
	return o
}

// damage makes the arguments of an operation malformed.
func (g G) damage(o *SOp, p *profile) {
	switch o.Op {
	case "encpin", "decpin":
		switch g.n(5) {
		case 0:
			o.Pin = pick[Str](g, "", "1", "123", "1234567890123", "12345678901234567890", "12a4", "-123", "１２３４")
			if o.Op == "decpin" {
				o.Fill = nil
				o.Msg = g.bytesN(g.n(40))
			}
		case 1:
			o.Pan = Str(g.seed().digits(g.n(13)))
			if o.Op == "decpin" && g.one(3) {
				o.Fill = nil
				o.Msg = g.bytesN(pick(g, 8, 16))
			}
		case 2:
			o.Fmt = pick[Str](g, "ISO-4", "ISO-5", "ISO", "iso0", "VISA", "ECI5", "x", "ANSI-1", " ISO-0", "ISO-0 ", "OEM-1")
			if g.bool() {
				o.Fmt = Str(g.nearWord(Formats...))
			}
			if o.Op == "decpin" && g.one(3) {
				o.Fill = nil
				o.Msg = g.bytesN(pick(g, 8, 16))
			}
		case 3:
			if o.Op == "decpin" {
				o.Fill = nil
				o.Msg = g.bytesN(pick(g, 0, 1, 7, 8, 9, 15, 16, 17, 24, 32, 100))
			} else {
				o.Pin = Str(g.dictStr())
			}
		default:
			if o.Op == "decpin" {
				o.Fill = nil
				o.Msg = g.bytesN(pick(g, 8, 16))
				o.Bad, o.Text = "ct", Str(g.badHex(hexCase(o.Msg, 0)))
			} else {
				o.Pan = Str(g.dictStr())
			}
		}
	case "mac":
		o.Mac = pick[Str](g, "", "CMAC", "HMAC", "mac", "cmac ", "sha", Str(g.dictStr()))
		if g.one(3) {
			o.Mac = Str(g.nearWord(macTypes...))
		}
	case "enc":
		o.Bad, o.Text = "iv", Str(g.badHex(hexCase(o.IV, g.n(3))))
	case "dec":
		switch g.n(3) {
		case 0:
			o.Bad, o.Text = "iv", Str(g.badHex(hexCase(o.IV, g.n(3))))
		case 1:
			o.Bad, o.Text = "ct", Str(g.badHex(hexCase(g.ubytes(g.n(40)), g.n(3))))
		default:
			o.Raw = true
			o.Msg = g.bytesN(g.n(50))
			if p.http {
				// the answer may not be text
				o.Bad, o.Text = "ct", "0"
			}
		}
	}
}

// echo is an earlier operation again with at most one thing changed, to show
// what an implementation remembers of it.
func (g G) echo(prev []SOp, bases []Base, p *profile) (SOp, bool) {
	var opers []SOp
	for _, o := range prev {
		if isOper(o.Op) && o.Bad == "" {
			opers = append(opers, o)
		}
	}
	if len(opers) == 0 {
		return SOp{}, false
	}
	first := opers[max(0, len(opers)-3):][0]
	o := pick(g, opers[len(opers)-1], first, pick(g, opers...))
	bs := 8
	if bases[o.M%len(bases)].aes() {
		bs = 16
	}
	str := func(s Str) Str { return Str(latin([]byte(s))) }
	k := g.n(8)
	switch k {
	case 0:
		return o, true
	case 1:
		o.M = g.n(len(bases))
		if o.Raw && bases[o.M].aes() != (bs == 16) {
			o.Msg = o.Msg[:len(o.Msg)/16*16]
		}
		return o, true
	}
	switch o.Op {
	case "decpin", "encpin":
		was := o
		switch k {
		case 2:
			o.Pin = g.pin()
		case 3:
			if o.Op == "encpin" {
				if digits(o.Pin) && digits(o.Pan) && len(o.Pin) >= 4 && len(o.Pin) <= 12 && len(o.Pan) >= 13 && len(o.Pan) <= 19 {
					o.Op, o.Fill = "decpin", g.ubytes(16)
				}
			} else if o.Fill != nil {
				o.Op, o.Fill, o.Of = "encpin", nil, nil
			}
		case 4:
			o.Fmt = g.format()
		default:
			o.Pan = g.panNear(o.Pan)
			if pin, pan, ok := twin(g.seed(), o.Pin, o.Pan, o.Fmt); ok && g.bool() {
				o.Pin, o.Pan = pin, pan // the same block carries this PIN
			}
		}
		if was.Op == "decpin" && o.Op == "decpin" && was.Fill != nil && was.Of == nil && k != 2 && g.bool() {
			o.Of = &was
		}
	case "mac":
		switch k {
		case 2, 3:
			o.Act = str(g.action())
		case 4:
			o.Mac = pick[Str](g, "cmac", "hmac")
		default:
			o.Msg = g.msgNear(o.Msg, p.http)
		}
	case "enc", "dec":
		was := o
		switch k {
		case 2, 3:
			o.Act = str(g.action())
		case 4, 5:
			o.IV = g.iv(bs)
			if g.one(3) {
				o.IV = nil
			}
			if len(was.IV) > 0 && g.bool() {
				o.IV = append(Hex{}, was.IV...)
				o.IV[g.n(len(o.IV))] ^= 1 << g.n(8)
			}
		case 6:
			if !o.Raw && o.Of == nil {
				if o.Op == "enc" {
					o.Op = "dec"
				} else {
					o.Op = "enc"
				}
			}
		default:
			if !o.Raw && o.Of == nil {
				o.Msg = g.msgNear(o.Msg, p.http)
			}
		}
		if was.Op == "enc" && o.Op == "enc" && k < 6 && g.bool() {
			// what was encrypted is decrypted with something else
			was.Op, o.Op = "dec", "dec"
			o.Of = &was
			break
		}
		if was.Op == "dec" && o.Op == "dec" && !was.Raw && was.Of == nil && k < 6 && g.bool() {
			o.Of = &was
		}
	}
	return o, true
}

// msgNear is a message close to m.
func (g G) msgNear(m Hex, text bool) Hex {
	m = append(Hex{}, m...)
	if len(m) == 0 {
		return Hex("a")
	}
	i := g.n(len(m))
	if g.bool() {
		i = len(m) - 1 - g.n(min(len(m), 16))
	}
	switch {
	case g.one(4):
		m = append(m, 'x')
	case text && m[i] < 0x80:
		m[i] = m[i]&0x7E ^ 1 | byte(g.n(2))
	case !text:
		m[i] ^= 1 << g.n(8)
	}
	return m
}

// panNear is a card number that differs in one digit or in length.
func (g G) panNear(p Str) Str {
	if len(p) < 13 || !digits(p) {
		return g.pan(13)
	}
	b := []byte(p)
	switch g.n(5) {
	case 0:
		if len(b) < 19 {
			return p + Str(g.seed().digits(1))
		}
		return p[1:]
	case 1:
		if len(b) < 19 {
			return Str(g.seed().digits(1)) + p
		}
		return p[:18]
	}
	i := g.n(len(b))
	b[i] = '0' + (b[i]-'0'+byte(1+g.n(9)))%10
	return Str(b)
}

// twin is another PIN and card number for which the format has the same clear
// block.
func twin(p *prng, pin, pan, format Str) (Str, Str, bool) {
	f := strings.ToUpper(string(format))
	if f == "" {
		f = "ISO-0"
	}
	if !ref.UsesPan(f) || len(pin) < 4 || len(pin) > 12 || len(pan) < 13 || len(pan) > 19 || !digits(pin) || !digits(pan) {
		return "", "", false
	}
	fill := p.bytes(16)
	a, err := ref.Encode8(f, string(pin), string(pan), fill)
	if err != nil {
		return "", "", false
	}
	for try := 0; try < 60; try++ {
		x, y := []byte(pin), []byte(pan)
		i, j, d := p.n(len(x)), p.n(len(y)), byte(1+p.n(15))
		v, w := (x[i]-'0')^d, (y[j]-'0')^d
		if v > 9 || w > 9 {
			continue
		}
		x[i], y[j] = '0'+v, '0'+w
		if b, err := ref.Encode8(f, string(x), string(y), fill); err == nil && string(a) == string(b) {
			return Str(x), Str(y), true
		}
	}
	return "", "", false
}

func drawHist(p profile, maxOps int) func(t *rapid.T) SHist {
	return func(t *rapid.T) SHist {
		g := G{t}
		h := SHist{HTTP: p.http, Watch: g.watch()}
		for n := 1 + g.n(5); n > 0; n-- {
			h.Bases = append(h.Bases, g.base(h.Bases, &p))
		}
		n := 1 + g.n(maxOps)
		// most bases are created at once, so that short histories do something
		for i := range h.Bases {
			if g.n(3) != 2 {
				h.Ops = append(h.Ops, SOp{Op: "create", M: i})
			}
		}
		if s := g.seed(); !p.short && s.n(150) == 0 { // far more than usual of something
			k := []int{20, 33, 65, 70, 101, 130, 257, 300}[s.n(8)]
			if s.n(8) == 0 {
				k = []int{520, 1030, 2100, 4100, 5010, 8200, 10050}[s.n(7)]
			}
			o := SOp{Op: []string{"bulk", "run"}[s.n(2)], M: s.n(len(h.Bases)), Case: k}
			if o.Op == "run" && k <= 300 {
				o.Case *= 1 + s.n(8)
			}
			h.Ops = append(h.Ops, o)
			if o.Op == "bulk" && s.n(2) == 0 {
				o.Op, o.Case = "unbulk", s.n(k)
				h.Ops = append(h.Ops, o)
			}
			h.Watch = max(h.Watch, 4)
		}
		if p.http && !p.short && g.one(60) {
			h.Wire = true
		}
		if q := g.seed(); p.http && q.n(5) == 0 { // one client's habits
			for k := 1 + q.n(3); k > 0; k-- {
				h.Heads = append(h.Heads, anyHead(q))
			}
			if q.n(2) == 0 {
				h.Heads = append(h.Heads, [2]string{[]string{"X-Request-Id", "Idempotency-Key", "X-User-Id", "X-Correlation-Id", "Cookie", "Authorization", "X-User", "X-Session-Id"}[q.n(8)], []string{"1", "7f3c", strings.Repeat("u", 40), "ik=unknown; session=2", "a@b", "{ik}", "ik={ik}; machine={ik}"}[q.n(7)]})
			}
		}
		for ; n > 0; n-- {
			o := g.sop(h.Bases, &p)
			if g.n(4) == 3 {
				if e, ok := g.echo(h.Ops, h.Bases, &p); ok {
					o = e
				}
			}
			if p.http && g.bool() {
				o.Sty = 1 + g.seed().n(1<<30)
			}
			if q := g.seed(); o.Op != "next" && q.n(30) == 0 {
				k := []int{4, 8, 11, 17, 33, 65, 101, 130, 260}[q.n(9)]
				if len(o.Msg) > 200 {
					k = min(k, 17)
				}
				c := o
				h.Ops = append(h.Ops, SOp{Op: "burst", M: o.M, Of: &c, Case: k})
				if q.n(4) != 0 {
					h.Ops = append(h.Ops, SOp{Op: "next", M: o.M, Ik: o.Ik, None: o.None})
				}
			}
			h.Ops = append(h.Ops, o)
			if o.Op == "next" { // runs of advances
				k := g.n(12) - 6
				if g.one(12) {
					k = g.n(60)
				}
				for ; k > 0; k-- {
					h.Ops = append(h.Ops, o)
				}
			}
		}
		return h
	}
}

func checkHist(strict bool) func(r *eng.Rec, h *SHist) error {
	check := checkHistNow(strict)
	return func(r *eng.Rec, h *SHist) error {
		if !h.Clock {
			return check(r, h)
		}
		return eng.Bubble(func() error { return check(r, h) })
	}
}

// waits are times after which something might be forgotten or refreshed.
var waits = []time.Duration{time.Millisecond, 100 * time.Millisecond, time.Second, 2 * time.Second, 5 * time.Second, 10 * time.Second, 30 * time.Second, time.Minute, 2 * time.Minute, 5 * time.Minute, 10 * time.Minute, 15 * time.Minute, 30 * time.Minute, time.Hour, 2 * time.Hour, 8 * time.Hour, 12 * time.Hour, 24 * time.Hour, 48 * time.Hour, 7 * 24 * time.Hour, 30 * 24 * time.Hour, 31 * 24 * time.Hour, 92 * 24 * time.Hour, 366 * 24 * time.Hour, 10 * 366 * 24 * time.Hour}

// drawClock draws histories with waits.
func drawClock(p profile, maxOps int) func(t *rapid.T) SHist {
	draw := drawHist(p, maxOps)
	return func(t *rapid.T) SHist {
		h := draw(t)
		h.Wire, h.Clock = false, true
		g := G{t}
		q := g.seed()
		ops := []SOp{}
		most := len(waits)
		if q.n(4) != 0 {
			most -= 1 + q.n(most-1)
		}
		for _, o := range h.Ops {
			if o.Op == "bulk" || o.Op == "unbulk" || o.Op == "run" {
				continue
			}
			ops = append(ops, o)
			if q.n(3) == 0 {
				ops = append(ops, SOp{Op: "wait", Case: int(waits[q.n(most)] / time.Millisecond)})
			}
		}
		h.Ops = ops
		return h
	}
}

func checkHistNow(strict bool) func(r *eng.Rec, h *SHist) error {
	return func(r *eng.Rec, h *SHist) error {
		w := newWorld(h.Bases, nil, h.HTTP)
		w.strict, w.quiet = strict, h.Watch > 0
		if w.http != nil {
			for _, x := range h.Heads {
				if m := h.Bases[0].model(); m != nil {
					x[1] = strings.ReplaceAll(x[1], "{ik}", m.ik)
				}
				w.http.heads = append(w.http.heads, x)
			}
		}
		if h.Wire {
			srv := httptest.NewServer(w.http.h)
			defer srv.Close()
			w.wire = &forward{base: srv.URL, client: &http.Client{Timeout: 100 * time.Second, Transport: &http.Transport{}}}
			defer w.wire.client.CloseIdleConnections()
			w.http.h = w.wire
			w.done["real connection"] = true
		}
		// a second service that must not be touched
		other := newWorld(h.Bases, nil, false)
		if err := other.do(&SOp{Op: "create"}); err != nil {
			return err
		}
		for i := range h.Ops {
			o := &h.Ops[i]
			err := w.do(o)
			if w.wire != nil && w.wire.failed != nil {
				err = fail("request gets no answer", "%s: %v", o.Op, w.wire.failed)
			}
			if err != nil {
				h.Ops = h.Ops[:i+1]
				return err
			}
			if watched(h.Watch, i, len(h.Ops)) {
				if err := w.audit(o.Op); err != nil {
					h.Ops = h.Ops[:i+1]
					return err
				}
			}
			r.ClassN("op "+o.Op, 1)
		}
		if err := other.audit("using another service"); err != nil {
			return err
		}
		r.Eval(h, w.done["creation"], w.classes()...)
		return nil
	}
}
