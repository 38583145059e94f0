package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"verifharness/eng"

	"github.com/moov-io/dukpt/pkg/server"
	"pgregory.net/rapid"
)

// Raw is one HTTP request, not necessarily one a reasonable client sends.
type Raw struct {
	Op     string      `json:"op,omitempty"` // the operation whose route is requested, "" for another path
	M      int         `json:"m"`
	Ik     Str         `json:"ik,omitempty"`
	Method string      `json:"method,omitempty"` // instead of the route's method
	Path   Str         `json:"path,omitempty"`
	Head   [][2]string `json:"head,omitempty"`
	Body   Str         `json:"body,omitempty"`
	Break  int         `json:"break,omitempty"` // the body cannot be read past this many bytes (1-based)
	Query  Str         `json:"query,omitempty"`
}

// RawHist is a history of raw requests.
type RawHist struct {
	Bases []Base `json:"bases"`
	Reqs  []Raw  `json:"reqs"`
	Watch int    `json:"watch,omitempty"`
}

func (h *RawHist) Smaller() (r []RawHist) {
	for i := range h.Reqs {
		d := RawHist{Bases: h.Bases, Watch: h.Watch}
		d.Reqs = append(append(d.Reqs, h.Reqs[:i]...), h.Reqs[i+1:]...)
		r = append(r, d)
	}
	return
}

type route struct{ method, path string }

var routes = map[string]route{
	"create": {"POST", "machine"},
	"get":    {"GET", "machine"},
	"list":   {"GET", "machines"},
	"next":   {"POST", "generate_ksn"},
	"encpin": {"POST", "encrypt_pin"},
	"decpin": {"POST", "decrypt_pin"},
	"mac":    {"POST", "generate_mac"},
	"enc":    {"POST", "encrypt_data"},
	"dec":    {"POST", "decrypt_data"},
}

var routeOrder = []string{"create", "get", "list", "next", "encpin", "decpin", "mac", "enc", "dec"}

// documented: some route is for such requests.
func documented(req *http.Request) bool {
	if req.Method == "OPTIONS" || req.Method == "GET" && req.URL.Path == "/ping" {
		return true
	}
	for _, rt := range routes {
		if rt.method != req.Method {
			continue
		}
		if req.URL.Path == "/machine" || req.URL.Path == "/machines" {
			if "/"+rt.path == req.URL.Path && (req.Method == "POST") == (rt.path == "machine") {
				return true
			}
			continue
		}
		if ik, ok := strings.CutPrefix(req.URL.Path, "/"+rt.path+"/"); ok && rt.path != "machines" && (rt.path != "machine" || req.Method == "GET") && ik != "" && !strings.Contains(ik, "/") {
			return true
		}
	}
	return false
}

type brokenBody struct {
	r *strings.Reader
	n int
}

func (b *brokenBody) Read(p []byte) (int, error) {
	if len(p) > b.n {
		p = p[:b.n]
	}
	if len(p) == 0 {
		return 0, errors.New("connection reset by peer")
	}
	n, err := b.r.Read(p)
	b.n -= n
	if err == io.EOF {
		err = errors.New("unexpected EOF")
	}
	return n, err
}

func (w *world) rawIk(q *Raw) string { return w.ikOf(&SOp{M: q.M, Ik: q.Ik}) }

// request builds the HTTP request; nil when the path is nothing that a server
// passes on.
func (w *world) request(q *Raw) *http.Request {
	path := string(q.Path)
	method := q.Method
	if q.Op != "" {
		rt := routes[q.Op]
		if method == "" {
			method = rt.method
		}
		path = "/" + rt.path
		if q.Op != "create" && q.Op != "list" {
			path = ikPath(rt.path, w.rawIk(q))
		}
	}
	if q.Query != "" {
		path += "?" + string(q.Query)
	}
	if method == "" {
		method = "GET"
	}
	u, err := url.ParseRequestURI(path)
	if err != nil {
		return nil
	}
	req := httptest.NewRequest("GET", "/", nil)
	req.Method, req.URL, req.RequestURI = method, u, path
	var body io.Reader = strings.NewReader(string(q.Body))
	if q.Break > 0 {
		body = &brokenBody{strings.NewReader(string(q.Body)), q.Break - 1}
	}
	req.Body = io.NopCloser(body)
	req.ContentLength = int64(len(q.Body))
	for _, h := range q.Head {
		req.Header.Add(h[0], h[1])
	}
	return req
}

// interpret is what the request asks for. ok is false when its body is not the
// JSON that the route takes.
func (w *world) interpret(q *Raw) (o SOp, b *Base, ok bool) {
	o = SOp{Op: q.Op, M: q.M, Ik: q.Ik}
	var err error
	dec := func(v any) {
		if q.Break > 0 {
			err = errors.New("body cannot be read")
			return
		}
		err = json.Unmarshal([]byte(q.Body), v)
	}
	hexOf := func(p, text string) Hex {
		if !validHex(text) {
			o.Bad, o.Text = p, Str(text)
			return nil
		}
		var h Hex
		json.Unmarshal([]byte(`"`+text+`"`), &h)
		return h
	}
	switch q.Op {
	case "create":
		var v struct{ Algorithm, AlgorithmKey, BaseDerivativeKey, KeySerialNumber string }
		dec(&v)
		b = &Base{Alg: Str(v.Algorithm), Kt: Str(v.AlgorithmKey), Bdk: Str(v.BaseDerivativeKey), Ksn: Str(v.KeySerialNumber)}
	case "encpin", "decpin":
		var v struct{ Pin, Pan, Format string }
		var d struct{ Encrypted, Pan, Format string }
		if q.Op == "encpin" {
			dec(&v)
		} else {
			dec(&d)
			v.Pan, v.Format = d.Pan, d.Format
			o.Msg = hexOf("ct", d.Encrypted)
		}
		o.Pin, o.Pan, o.Fmt = Str(v.Pin), Str(v.Pan), Str(v.Format)
	case "mac":
		var v struct{ Action, Data, MacType string }
		dec(&v)
		o.Act, o.Msg, o.Mac = Str(v.Action), Hex(v.Data), Str(v.MacType)
	case "enc", "dec":
		var v struct{ Action, Data, Iv string }
		dec(&v)
		o.Act = Str(v.Action)
		o.IV = hexOf("iv", v.Iv)
		if q.Op == "enc" {
			o.Msg = Hex(v.Data)
		} else {
			bad, text := o.Bad, o.Text
			o.Msg = hexOf("ct", v.Data)
			if bad != "" {
				o.Bad, o.Text = bad, text
			}
			o.Raw, o.Open = true, true
		}
	}
	return o, b, err == nil
}

func checkRaw(r *eng.Rec, h *RawHist) error {
	w := newWorld(h.Bases, nil, true)
	w.strict, w.quiet = true, h.Watch > 0
	for i := range h.Bases {
		if h.Bases[i].model() != nil && i%3 != 2 {
			if err := w.do(&SOp{Op: "create", M: i}); err != nil {
				return err
			}
		}
	}
	for i := range h.Reqs {
		q := &h.Reqs[i]
		err := w.doRaw(r, q)
		if err == nil && watched(h.Watch, i, len(h.Reqs)) {
			err = w.audit(fmt.Sprintf("%s %s", q.Method, q.Op))
		}
		if err != nil {
			h.Reqs = h.Reqs[:i+1]
			return err
		}
	}
	r.Eval(h, true, w.classes()...)
	return nil
}

func (w *world) doRaw(r *eng.Rec, q *Raw) error {
	req := w.request(q)
	if req == nil {
		r.Class("request: not a URL")
		return nil
	}
	if q.Op == "" && req.Method == "POST" && req.URL.Path == "/machine" {
		c := *q
		c.Op, c.Method = "create", ""
		q = &c
	}
	if q.Op == "" || q.Method != "" && q.Method != routes[q.Op].method {
		rec, err := w.http.do(req)
		if err != nil {
			return fail("handler panics", "%s %s: %v", req.Method, clip(string(q.Path)), err)
		}
		if rec.Code < 200 || rec.Code > 599 {
			return fail("answer status", "%d", rec.Code)
		}
		if rec.Code < 300 && !documented(req) {
			return fail("request for no documented route is answered as a success", "%s %s: %d", req.Method, clip(req.URL.Path), rec.Code)
		}
		r.Class("request: other method or path")
		return nil
	}
	o, b, ok := w.interpret(q)
	if !ok {
		rec, err := w.http.do(req)
		if err != nil {
			return fail("handler panics", "%s: %v", q.Op, err)
		}
		if p := failureProblem(rec.Code, rec.Body.Bytes()); p != "" {
			return fail("malformed request is answered wrongly", "%s body %q: %s (status %d, body %s)", q.Op, clip(string(q.Body)), p, rec.Code, clip(rec.Body.String()))
		}
		r.Class("request: malformed body")
		return nil
	}
	r.Class("request: " + q.Op)
	w.http.override = req
	defer func() { w.http.override = nil }()
	if q.Op == "create" {
		if b.unspecified() {
			if _, err := w.http.do(req); err != nil {
				return fail("handler panics", "%s: %v", q.Op, err)
			}
			// whatever happened, go on from a clean service
			quiet := w.quiet
			*w = *newWorld(w.bases, nil, true)
			w.strict, w.quiet = true, quiet
			return nil
		}
		w.bases = append(w.bases, *b)
		o.M = len(w.bases) - 1
		defer func() { w.bases = w.bases[:len(w.bases)-1] }()
	}
	return w.do(&o)
}

// unspecified: machines whose creation is neither refused nor accepted by the
// properties, and whose keys are not specified.
func (b *Base) unspecified() bool {
	m := b.model()
	if m == nil {
		// TDES KSNs under 4 bytes
		return b.Alg == "des" && validHex(string(b.Bdk)) && len(b.Bdk) == 32 && validHex(string(b.Ksn)) && len(b.Ksn) < 8
	}
	return false
}

// ---- generators ----

func (g G) jsonBody(o *SOp, b *Base) string {
	type kv struct {
		k string
		v any
	}
	var f []kv
	switch o.Op {
	case "create":
		f = []kv{{"Algorithm", string(b.Alg)}, {"AlgorithmKey", string(b.Kt)}, {"BaseDerivativeKey", string(b.Bdk)}, {"KeySerialNumber", string(b.Ksn)}}
	case "encpin":
		f = []kv{{"pin", string(o.Pin)}, {"pan", string(o.Pan)}, {"format", string(o.Fmt)}}
	case "decpin":
		f = []kv{{"encrypted", o.text("ct", o.Msg)}, {"pan", string(o.Pan)}, {"format", string(o.Fmt)}}
	case "mac":
		f = []kv{{"action", string(o.Act)}, {"data", string(o.Msg)}, {"macType", string(o.Mac)}}
	case "enc":
		f = []kv{{"action", string(o.Act)}, {"data", string(o.Msg)}, {"iv", o.text("iv", o.IV)}}
	case "dec":
		f = []kv{{"action", string(o.Act)}, {"data", o.text("ct", o.Msg)}, {"iv", o.text("iv", o.IV)}}
	}
	mut := g.n(12)
	if len(f) == 0 {
		return pick(g, "", "{}", "null", "x", "[1]", "{")
	}
	i := g.n(len(f))
	switch mut {
	case 1: // missing
		f = append(f[:i:i], f[i+1:]...)
	case 2: // other type
		f[i].v = []any{nil, 1, 1.5e300, true, []any{}, map[string]any{}, []any{"request"}, -1}[g.n(8)]
	case 3: // other letter case
		f[i].k = pick(g, strings.ToUpper(f[i].k), strings.ToLower(f[i].k), strings.Title(f[i].k))
	case 4: // twice
		f = append(f, kv{f[i].k, pick[any](g, "", "x", nil, f[i].v)})
	case 5: // unknown members
		f = append(f, kv{pick(g, "x", "error", "ik", "machine", "", "__proto__"), pick[any](g, "x", nil, 1, []any{[]any{}})})
	case 6: // long
		f[i].v = strings.Repeat("A", pick(g, 1000, 4096, 70000))
	}
	var sb strings.Builder
	sb.WriteString("{")
	for j, e := range f {
		if j > 0 {
			sb.WriteString(",")
		}
		k, _ := json.Marshal(e.k)
		v, _ := json.Marshal(e.v)
		sb.Write(k)
		sb.WriteString(pick(g, ":", ": ", " :\n"))
		sb.Write(v)
	}
	sb.WriteString("}")
	s := sb.String()
	switch mut {
	case 7:
		return s[:g.n(len(s))]
	case 8:
		p := g.n(len(s))
		return s[:p] + pick(g, "\x00", "\"", "}", "{", "\\", "\\ud800", "\xff", ",", "\xef\xbb\xbf", "//", "'") + s[p:]
	case 9:
		return pick(g, s+"x", s+s, s+"\n", " "+s, "\xef\xbb\xbf"+s, "["+s+"]", "", "null", "true", "0", `""`, "[]", "{}", strings.Repeat("[", 20000), strings.Repeat(`{"a":`, 12000), `{"pin":`, "<xml/>", "pin=1234&pan=1")
	}
	return s
}

func drawRaw(t *rapid.T) RawHist {
	g := G{t}
	p := profile{http: true, badKsn: true, unk: 12, wild: 3, weight: map[string]int{"create": 3, "next": 2, "encpin": 2, "decpin": 2, "mac": 2, "enc": 2, "dec": 2, "get": 1, "list": 1}}
	h := RawHist{Watch: g.watch()}
	for n := 1 + g.n(3); n > 0; n-- {
		h.Bases = append(h.Bases, g.base(h.Bases, &p))
	}
	for n := 1 + g.n(8); n > 0; n-- {
		o := g.sop(h.Bases, &p)
		q := Raw{Op: o.Op, M: o.M, Ik: o.Ik}
		b := g.base(h.Bases, &p)
		q.Body = Str(g.jsonBody(&o, &b))
		if g.one(25) {
			q.Break = 1 + g.n(len(q.Body)+1)
		}
		switch g.n(9) {
		case 0:
			q.Method = pick(g, "GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "CONNECT", "FOO", "get", "post")
		case 1:
			q.Op = ""
			q.Method = pick(g, "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS")
			q.Path = Str(g.path())
		}
		if pr := g.seed(); q.Op != "" && pr.n(4) == 0 {
			q.Query = Str(someQueries[pr.n(len(someQueries))])
		} else if pr.n(3) == 0 {
			q.Head = append(q.Head, anyHead(pr))
		}
		for k := g.n(3); k > 0; k-- {
			q.Head = append(q.Head, [2]string{
				pick(g, "Content-Type", "Accept", "X-Request-Id", "Origin", "X-User-Id", "Transfer-Encoding", "Content-Encoding", "Authorization", "Expect", "X-Forwarded-For", "Cookie"),
				pick(g, "application/json", "text/plain", "", "\x01", "application/x-www-form-urlencoded", "multipart/form-data", "text/html", "https://x", strings.Repeat("a", 5000), "gzip", "chunked", "é", "*/*", "a=b; c=d", "null")})
		}
		h.Reqs = append(h.Reqs, q)
	}
	return h
}

func (g G) path() string {
	seg := func() string {
		return pick(g, "", "machine", "machines", "generate_ksn", "encrypt_pin", "decrypt_pin", "generate_mac", "encrypt_data", "decrypt_data", "ping", "..", ".", "%00", "%2e%2e", "%2F", "a", "é", "%", "%zz", "*", "x y", strings.Repeat("a", 3000), "Machine", "machine;x", "0", "metrics", "live", "version", "debug")
	}
	s := ""
	for n := 1 + g.n(4); n > 0; n-- {
		s += "/" + seg()
	}
	if g.one(4) {
		s += pick(g, "?", "?a=b", "?%zz", "#x", "?;", "/", "//", "?ik=1")
	}
	return s
}

// frameGrid has well-formed requests with bodies that are damaged in one place,
// or have something around them.
func frameGrid(yield func(*RawHist) bool) {
	bases := []Base{
		{Alg: "des", Bdk: "0123456789abcdeffedcba9876543210", Ksn: "FFFF9876543210E00001"},
		{Alg: "aes", Kt: "AES128", Bdk: "0123456789abcdeffedcba9876543210", Ksn: "123456789012345600000001"},
		{Alg: "des", Bdk: "0123456789abcdeffedcba9876543211", Ksn: "FFFF9876543210E00001"},
	}
	p := mixer("framegrid")
	i := 0
	good := true
	for _, op := range plainOps {
		if op.Op == "get" || op.Op == "list" || op.Op == "next" {
			continue
		}
		for m := 0; m < 2 && good; m++ {
			op.M = m
			if op.Op == "decpin" && m == 1 {
				op.Msg = p.bytes(16)
			}
			b := &bases[2]
			if m == 1 && op.Op == "create" {
				b = &Base{Alg: "aes", Kt: "AES128", Bdk: "0123456789abcdeffedcba9876543211", Ksn: "123456789012345600000001"}
			}
			s := plainBody(&op, b)
			out := func(body string) {
				if i++; good && eng.Mine(i) {
					good = yield(&RawHist{Bases: bases, Reqs: []Raw{{Op: op.Op, M: m, Body: Str(body)}}})
				}
			}
			for c := 0; c < 256; c++ {
				x := string([]byte{byte(c)})
				out(x + s)
				out(s + x)
				out(s + x + x)
				out(s + "\n" + x + "\n")
			}
			for _, x := range []string{"\xef\xbb\xbf", "\xff\xfe", "\u00a0", "\u2028", "\u0085", "\u200b", "\r\n", "\n\n", " \t\r\n ", "{}", "[]", "null", "\"\"", "//", "// x\n", "/* x */", "# x\n", "<!-- x -->", ")]}',\n", "while(1);", "for(;;);", "\x1e", "\x00\x00\x00", "\x00\n", "\n\x00", ";", ";\n", ",{}", ",", "}}", "]]", "--", "---\n", "...", "data: ", "\r\n0\r\n\r\n", "&a=b", "\x1a", "\x04", "(", ")", "{\"a\":1}", s, s + "\n", "\n" + s, "}" + s} {
				out(x + s)
				out(s + x)
				out(x + s + x)
				out(s[:1] + x + s[1:])
				out(s[:len(s)-1] + x + "}")
			}
			for j := range s {
				out(s[:j])
				out(s[j:])
				out(s[:j] + s[j+1:])
				for _, x := range []string{"\x00", "\"", "'", "}", "{", ",", ":", "\\", "/", "\xff", "\n", "\t", " ", "0", "\x7f", "+", "\ufeff"} {
					out(s[:j] + x + s[j:])
					out(s[:j] + x + s[j+1:])
				}
			}
		}
	}
}

// methodGrid has requests with other methods for every route, and for paths
// beside them.
func methodGrid(yield func(*RawHist) bool) {
	bases := []Base{
		{Alg: "des", Bdk: "0123456789abcdeffedcba9876543210", Ksn: "FFFF9876543210E00001"},
		{Alg: "aes", Kt: "AES128", Bdk: "0123456789abcdeffedcba9876543210", Ksn: "123456789012345600000001"},
	}
	methods := []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "TRACE", "CONNECT", "PROPFIND", "COPY", "MOVE", "PURGE", "LINK", "UNLINK", "SEARCH", "QUERY", "VIEW", "get", "post", "Post", "delete", "GETX", "POST "}
	i := 0
	good := true
	out := func(q Raw) {
		for _, pre := range []bool{false, true} {
			h := RawHist{Bases: bases}
			if pre { // with machines to act on
				for m := range bases {
					h.Reqs = append(h.Reqs, Raw{Op: "create", M: m, Body: Str(plainBody(&SOp{Op: "create", M: m}, &bases[m]))})
				}
			}
			h.Reqs = append(h.Reqs, q, Raw{Op: "get", M: q.M}, Raw{Op: "list"})
			if i++; good && eng.Mine(i) {
				good = yield(&h)
			}
		}
	}
	for m := range bases {
		ik := bases[m].model().ik
		for _, op := range plainOps {
			op.M = m
			if op.Op == "decpin" && m == 1 {
				op.Msg = make(Hex, 16)
			}
			body := Str(plainBody(&op, &bases[m]))
			rt := routes[op.Op]
			for _, method := range methods {
				if method == rt.method {
					continue
				}
				if rt.path == "machine" && (method == "GET" || method == "POST") {
					continue // the other route of the path
				}
				for _, b := range []Str{body, "", "{}"} {
					out(Raw{Op: op.Op, M: m, Method: method, Body: b})
				}
			}
			path := "/" + rt.path
			paths := []string{path + "//" + ik, path + "/" + ik + "/", path + "/" + ik + "/x", path + "/x/" + ik, "/v1" + path + "/" + ik, "/api" + path + "/" + ik, "/" + path + "/" + ik, path + "s/" + ik, strings.TrimSuffix(path, "s") + "_/" + ik, strings.ToUpper(path) + "/" + ik, strings.ReplaceAll(path, "_", "-") + "/" + ik, strings.ReplaceAll(path, "_", "") + "/" + ik, strings.ReplaceAll(path, "_", "/") + "/" + ik, "/machine/" + ik + path, "/machines/" + ik + path, "/machines/" + ik, "/" + ik + path, "/" + ik, path + ";x/" + ik, path + ".json/" + ik, path + "/" + ik + "/" + ik, path + "/", path + "/" + ik + "%2F", path + "%2F" + ik, "/./" + path[1:] + "/" + ik, "/x/.." + path + "/" + ik, path + "/./" + ik, "/ping/" + ik, "/", "/health", "/metrics", "/debug/pprof/", "/status", "/reset", "/machines/delete", "/delete_machine/" + ik, "/delete/" + ik, "/export", "/index.html", "/favicon.ico", "/robots.txt"}
			if op.Op != "list" && op.Op != "create" {
				paths = append(paths, path)
			} else {
				paths = append(paths, path+"/", path+"/x/")
			}
			for _, x := range paths {
				for _, method := range []string{"GET", "POST", "PUT", "DELETE"} {
					u, err := url.ParseRequestURI(x)
					if err != nil || documented(&http.Request{Method: method, URL: u}) {
						continue
					}
					out(Raw{M: m, Path: Str(x), Method: method, Body: body})
				}
			}
		}
	}
}

// ---- C20 ----

// Cors is one request with an Origin.
type Cors struct {
	Kind   string `json:"kind"` // ping, options, "" for an operation, bad for one with another body, other for another path
	Method string `json:"method,omitempty"`
	Body   Str    `json:"body,omitempty"`
	Path   Str    `json:"path,omitempty"`
	Origin Str    `json:"origin"`
	No     bool   `json:"no,omitempty"` // without Origin header
	Base   Base   `json:"base"`
	O      SOp    `json:"o"`
	Head   []Str  `json:"head,omitempty"`
	Query  Str    `json:"query,omitempty"`
}

var corsHeaders = []string{"Access-Control-Allow-Origin", "Access-Control-Allow-Methods", "Access-Control-Allow-Headers", "Access-Control-Allow-Credentials"}

func set(s string) string {
	l := strings.Split(s, ",")
	for i := range l {
		l[i] = strings.TrimSpace(l[i])
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func checkCors(r *eng.Rec, c *Cors) error {
	w := newWorld([]Base{c.Base}, nil, true)
	if c.O.Op != "create" || c.Kind == "options" {
		if c.Base.model() != nil {
			if err := w.do(&SOp{Op: "create"}); err != nil {
				return err
			}
		}
	}
	req := c.request(w)
	if req == nil {
		return nil
	}
	rec, err := w.http.do(req)
	if err != nil {
		return fail("handler panics", "%v", err)
	}
	redirected, err := c.judge(rec)
	if err != nil {
		return err
	}
	if redirected {
		r.Class("redirected")
		return nil
	}
	if c.Kind == "options" {
		if err := w.audit("OPTIONS"); err != nil {
			return err
		}
	}
	r.Eval(c, true, c.classes(rec)...)
	return nil
}

// request is the HTTP request of the case.
func (c *Cors) request(w *world) *http.Request {
	q := Raw{Op: c.O.Op, M: c.O.M, Ik: c.O.Ik, Body: Str(plainBody(&c.O, &w.bases[c.O.M%len(w.bases)]))}
	switch c.Kind {
	case "ping":
		q = Raw{Path: "/ping", Method: "GET"}
	case "options":
		q = Raw{Path: c.Path, Method: "OPTIONS", Body: q.Body}
	case "bad":
		q.Body = c.Body
	case "other":
		q = Raw{Path: c.Path, Method: c.Method, Body: q.Body}
	}
	q.Query = c.Query
	req := w.request(&q)
	if req == nil {
		return nil
	}
	if !c.No {
		req.Header.Set("Origin", string(c.Origin))
	}
	for _, h := range c.Head {
		k, v, _ := strings.Cut(string(h), ": ")
		req.Header.Set(k, v)
	}
	return req
}

func (c *Cors) allowed() bool {
	return !c.No && (strings.HasPrefix(string(c.Origin), "https://") || strings.HasPrefix(string(c.Origin), "http://localhost:"))
}

func (c *Cors) classes(rec *httptest.ResponseRecorder) []string {
	cl := "origin refused"
	if c.allowed() {
		cl = "origin allowed"
	}
	st := "failure"
	if rec.Code == 200 {
		st = "success"
	}
	kind := c.Kind
	if kind == "" {
		kind = "route " + c.O.Op
	}
	return []string{cl, kind, st}
}

// judge looks at the answer to the request.
func (c *Cors) judge(rec *httptest.ResponseRecorder) (redirected bool, _ error) {
	// OPTIONS goes to any path except that the router redirects unclean ones
	if c.Kind == "options" && rec.Code >= 300 && rec.Code < 400 {
		return true, nil
	}
	origin := string(c.Origin)
	if c.No {
		origin = ""
	}
	got := rec.Header()
	if loose := c.Kind == "bad" || c.Kind == "other"; c.allowed() {
		want := map[string]string{
			"Access-Control-Allow-Origin":      origin,
			"Access-Control-Allow-Methods":     set("GET,POST,PATCH,DELETE,OPTIONS"),
			"Access-Control-Allow-Headers":     set("Cookie,X-User-Id,X-Request-Id,Content-Type"),
			"Access-Control-Allow-Credentials": "true",
		}
		for k, v := range want {
			if loose && len(got.Values(k)) == 0 {
				continue // it may not have reached its endpoint
			}
			have := got.Get(k)
			if k == "Access-Control-Allow-Methods" || k == "Access-Control-Allow-Headers" {
				have = set(have)
			}
			if have != v {
				return false, fail("CORS header", "%s %s with Origin %q: %s is %q, want %q", c.Kind, c.O.Op, origin, k, have, v)
			}
			if len(got.Values(k)) != 1 {
				return false, fail("CORS header", "%s is sent %d times", k, len(got.Values(k)))
			}
		}
	} else {
		for _, k := range corsHeaders {
			if v := got.Values(k); len(v) > 0 {
				return false, fail("CORS header for a foreign origin", "%s %s with Origin %q: %s: %q", c.Kind, c.O.Op, origin, k, v)
			}
		}
	}
	switch c.Kind {
	case "ping":
		if rec.Code != 200 || rec.Body.String() != "PONG" {
			return false, fail("ping", "status %d body %q", rec.Code, clip(rec.Body.String()))
		}
	case "options":
		if rec.Code != 200 {
			return false, fail("preflight", "status %d on %s", rec.Code, clip(string(c.Path)))
		}
	default:
		if c.Kind != "" && (len(bytes.TrimSpace(rec.Body.Bytes())) == 0 || !json.Valid(rec.Body.Bytes())) {
			break // not a JSON answer
		}
		mt, ps, err := mime.ParseMediaType(got.Get("Content-Type"))
		if err != nil || mt != "application/json" || !strings.EqualFold(ps["charset"], "utf-8") {
			return false, fail("content type", "%s answers %q (status %d)", c.O.Op, got.Get("Content-Type"), rec.Code)
		}
		if !json.Valid(bytes.TrimSpace(rec.Body.Bytes())) || !utf8.Valid(rec.Body.Bytes()) {
			return false, fail("answer is not JSON", "%s: %s", c.O.Op, clip(rec.Body.String()))
		}
	}
	return false, nil
}

// CorsSeq is several requests to one handler.
type CorsSeq struct {
	Bases []Base `json:"bases"`
	Reqs  []Cors `json:"reqs"`
	// Mode: one after the other, each while the one before it is served, or all
	// at the same time
	Mode string `json:"mode,omitempty"` // "", nested or conc
}

func (c *CorsSeq) Smaller() (r []CorsSeq) {
	for i := range c.Reqs {
		if len(c.Reqs) > 1 {
			d := CorsSeq{Bases: c.Bases, Mode: c.Mode}
			d.Reqs = append(append(d.Reqs, c.Reqs[:i]...), c.Reqs[i+1:]...)
			r = append(r, d)
		}
	}
	return
}

// hookSvc calls hook before each call of the service below.
type hookSvc struct {
	server.Service
	hook func()
}

func (h *hookSvc) CreateMachine(m *server.Machine) error {
	h.hook()
	return h.Service.CreateMachine(m)
}

func (h *hookSvc) GetMachine(ik string) (*server.Machine, error) {
	h.hook()
	return h.Service.GetMachine(ik)
}

func (h *hookSvc) GetMachines() []*server.Machine {
	h.hook()
	return h.Service.GetMachines()
}

func (h *hookSvc) MakeNextKSN(ik string) (*server.Machine, error) {
	h.hook()
	return h.Service.MakeNextKSN(ik)
}

func (h *hookSvc) EncryptPin(ik, pin, pan, format string) (string, error) {
	h.hook()
	return h.Service.EncryptPin(ik, pin, pan, format)
}

func (h *hookSvc) GenerateMac(ik, data, action, macType string) (string, error) {
	h.hook()
	return h.Service.GenerateMac(ik, data, action, macType)
}

// hookBody calls hook before its first byte is read.
type hookBody struct {
	io.ReadCloser
	hook func()
}

func (h *hookBody) Read(b []byte) (int, error) {
	if h.hook != nil {
		f := h.hook
		h.hook = nil
		f()
	}
	return h.ReadCloser.Read(b)
}

// nestWait is how long a request waits for the one made inside it; a handler
// may serve requests one at a time.
var nestWait = 2 * time.Second

func checkCorsSeq(r *eng.Rec, c *CorsSeq) error {
	w := newWorld(c.Bases, nil, true)
	for i := range c.Bases {
		if c.Bases[i].model() != nil {
			if err := w.do(&SOp{Op: "create", M: i}); err != nil {
				return err
			}
		}
	}
	hs := &hookSvc{Service: w.raw, hook: func() {}}
	w.http.h = server.MakeHTTPHandler(hs)
	n := len(c.Reqs)
	recs, errs, used := make([]*httptest.ResponseRecorder, n), make([]error, n), make([]bool, n)
	reqs := make([]*http.Request, n)
	for i := range c.Reqs {
		reqs[i] = c.Reqs[i].request(w)
	}
	var wg sync.WaitGroup
	switch c.Mode {
	case "nested":
		at := 0
		var mu sync.Mutex // over at
		var next func() bool
		next = func() bool {
			mu.Lock()
			i := at
			at++
			mu.Unlock()
			if i >= n {
				return false
			}
			if reqs[i] == nil {
				return next()
			}
			reqs[i].Body = &hookBody{reqs[i].Body, func() {
				if i%2 == 0 {
					hs.hook()
				}
			}}
			recs[i], errs[i] = w.http.do(reqs[i])
			used[i] = true
			return true
		}
		hs.hook = func() {
			done := make(chan bool)
			wg.Add(1)
			go func() {
				defer wg.Done()
				next()
				close(done)
			}()
			t := time.NewTimer(nestWait)
			defer t.Stop()
			select {
			case <-done:
			case <-t.C:
				nestWait = time.Millisecond
			}
		}
		for next() {
		}
	case "conc":
		for i := range reqs {
			if reqs[i] == nil {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				recs[i], errs[i] = w.http.do(reqs[i])
				used[i] = true
			}()
		}
	default:
		for i := range reqs {
			if reqs[i] != nil {
				recs[i], errs[i] = w.http.do(reqs[i])
				used[i] = true
			}
		}
	}
	wg.Wait()
	cl := []string{"one after the other"}
	if c.Mode != "" {
		cl[0] = "at the same time: " + c.Mode
	}
	for i := range c.Reqs {
		q := &c.Reqs[i]
		if !used[i] {
			continue
		}
		if errs[i] != nil {
			return fail("handler panics", "%v", errs[i])
		}
		red, err := q.judge(recs[i])
		if err != nil {
			return err
		}
		if !red {
			cl = append(cl, q.classes(recs[i])...)
		}
	}
	r.Eval(c, n > 1, cl...)
	return nil
}

func drawCorsSeq(t *rapid.T) CorsSeq {
	g := G{t}
	c := CorsSeq{Mode: pick(g, "", "nested", "nested", "conc", "conc")}
	p := profile{http: true, short: true}
	for n := 1 + g.n(2); n > 0; n-- {
		c.Bases = append(c.Bases, g.base(c.Bases, &p))
	}
	for n := 2 + g.n(6); n > 0; n-- {
		q := drawCors(t)
		q.O.M = g.n(len(c.Bases))
		if g.n(3) == 0 && len(c.Reqs) > 0 {
			q.Origin, q.No = c.Reqs[0].Origin, false
		}
		q.Base = c.Bases[q.O.M]
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

// plainBody is the proper request body of an operation.
func plainBody(o *SOp, b *Base) string {
	m := map[string]string{}
	switch o.Op {
	case "create":
		m = map[string]string{"Algorithm": string(b.Alg), "AlgorithmKey": string(b.Kt), "BaseDerivativeKey": string(b.Bdk), "KeySerialNumber": string(b.Ksn)}
	case "encpin":
		m = map[string]string{"pin": string(o.Pin), "pan": string(o.Pan), "format": string(o.Fmt)}
	case "decpin":
		m = map[string]string{"encrypted": o.text("ct", o.Msg), "pan": string(o.Pan), "format": string(o.Fmt)}
	case "mac":
		m = map[string]string{"action": string(o.Act), "data": string(o.Msg), "macType": string(o.Mac)}
	case "enc":
		m = map[string]string{"action": string(o.Act), "data": string(o.Msg), "iv": o.text("iv", o.IV)}
	case "dec":
		m = map[string]string{"action": string(o.Act), "data": o.text("ct", o.Msg), "iv": o.text("iv", o.IV)}
	default:
		return ""
	}
	s, _ := json.Marshal(m)
	return string(s)
}

var origins = []string{
	"https://example.com", "https://", "https://x", "https://localhost:8080", "https://a b", "https://example.com:8443", "https://EXAMPLE.com/", "https://evil.com,https://good.com",
	"http://localhost:", "http://localhost:3000", "http://localhost:3000/", "http://localhost:8080.evil.com", "http://localhost:x",
	"", "null", "*", "http://localhost", "http://localhost.evil.com", "http://localhost.", "http://example.com", "http://127.0.0.1:8080", "http://[::1]:80", "http:/localhost:80", "http//localhost:80",
	"HTTPS://example.com", "Http://localhost:80", "http://LOCALHOST:80", "https:/example.com", "https:example.com", "https", "http", "http://", "ftp://example.com", "file://", "wss://localhost:1", "xhttps://example.com", " https://example.com", "example.com https://", "https//x", "http://localhost;80", "http://user@localhost:80", "http://xlocalhost:80", "http://evil.com/http://localhost:80", "httpss://x", "https:\\\\x",
}

func (g G) origin() string {
	o := origins[g.n(len(origins))]
	switch g.n(6) {
	case 0:
		if o == "" {
			return o
		}
		p := g.n(len(o))
		return o[:p] + pick(g, "", "x", ".", ":", "/", "0", " ", "é") + o[p+1:]
	case 1:
		return o + pick(g, "x", "/", ".evil.com", ":80", "?a", "#b", strings.Repeat("a", 300))
	case 2:
		if o == "" {
			return o
		}
		return o[:g.n(len(o))]
	case 3:
		return g.dictStr()
	}
	return o
}

func drawCors(t *rapid.T) Cors {
	g := G{t}
	p := profile{http: true, unk: 6, wild: 5, short: true, weight: map[string]int{"create": 2, "get": 2, "list": 2, "next": 2, "encpin": 1, "decpin": 1, "mac": 1, "enc": 1, "dec": 1}}
	c := Cors{Base: g.base(nil, &p)}
	c.O = g.sop([]Base{c.Base}, &p)
	c.Origin = Str(strings.Map(func(r rune) rune {
		if r < 32 || r == 127 {
			return -1
		}
		return r
	}, g.origin()))
	c.No = g.one(15)
	switch g.n(6) {
	case 0:
		c.Kind = "ping"
	case 1, 2:
		c.Kind = "options"
		c.Path = Str(g.path())
		if g.bool() {
			rt := routes[routeOrder[g.n(len(routeOrder))]]
			c.Path = Str("/" + rt.path)
			if g.bool() {
				c.Path += "/" + Str(pick(g, "abc", "6ac292faa1315b4d858ab3a3d7d5933a", "%20"))
			}
		}
		if g.one(10) {
			c.Path = pick[Str](g, "*", "/ping", "/")
		}
		if g.bool() {
			c.Head = append(c.Head, "Access-Control-Request-Method: "+Str(pick(g, "POST", "GET", "DELETE", "PUT")))
		}
	}
	switch p := g.seed(); {
	case c.Kind == "" && p.n(5) == 0: // a body that may not be understood
		c.Kind = "bad"
		b := string(plainBody(&c.O, &c.Base))
		c.Body = Str([]string{"", "{", "[]", "null", "x", "{\"pin\":1}", "{\"data\":{}}", b + b, b + "}", strings.Replace(b, ":", "", 1), b[:p.n(len(b)+1)], "\xff\xfe", "{}", "\"\""}[p.n(14)])
	case c.Kind == "" && p.n(8) == 0:
		c.Kind = "other"
		c.Path = Str(g.path())
		c.Method = []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD"}[p.n(6)]
	}
	if g.one(4) {
		c.Head = append(c.Head, Str(pick(g, "Accept: text/html", "X-Request-Id: 1", "Referer: https://x/", "Host: evil.com", "Sec-Fetch-Mode: cors")))
	}
	pr := g.seed()
	for k := pr.n(6) - 2; k > 0; k-- {
		if h := anyHead(pr); h[0] != "Origin" {
			c.Head = append(c.Head, Str(h[0]+": "+h[1]))
		}
	}
	if pr.n(4) == 0 && !strings.ContainsAny(string(c.Path), "?#*") {
		c.Query = Str(someQueries[pr.n(len(someQueries))])
	}
	return c
}

// headGrid is every header of the lists, with each kind of request and an
// allowed and a refused origin.
func headGrid(yield func(*Cors) bool) {
	p := mixer("headgrid")
	heads := append(append([][2]string{}, someHeads...), moreHeads...)
	d := dictHeads()
	for i := 0; i < len(d) && i < gridN(3000, 20000); i++ {
		heads = append(heads, d[p.n(len(d))])
	}
	i := 0
	for _, h := range heads {
		if h[0] == "Origin" {
			continue
		}
		for _, o := range []Str{"https://example.com", "http://localhost:3000", "http://example.com"} {
			for k := 0; k < 4+len(plainOps); k++ {
				c := Cors{Origin: o, Head: []Str{Str(h[0] + ": " + h[1])}, O: plainOps[p.n(len(plainOps))], Base: Base{Alg: "aes", Kt: "AES128", Bdk: "0123456789abcdeffedcba9876543210", Ksn: "123456789012345600000001"}}
				if p.n(2) == 0 {
					c.Base = Base{Alg: "des", Bdk: "0123456789abcdeffedcba9876543210", Ksn: "FFFF9876543210E00001"}
				}
				switch k {
				case 0:
					c.Kind = "ping"
				case 1:
					c.Kind, c.Path = "options", Str("/"+routes[c.O.Op].path+"/abc")
				case 2:
					c.Kind, c.Path = "options", []Str{"/ping", "/", "/nothing", "/machines", "/machine"}[p.n(5)]
				case 3:
					c.Kind, c.Body = "bad", "{"
				default:
					c.O = plainOps[k-4]
				}
				if i++; !eng.Mine(i) {
					continue
				}
				if !yield(&c) {
					return
				}
			}
		}
	}
}

// corsGrid is every origin of the list with every kind of request.
func corsGrid(yield func(*Cors) bool) {
	good := []Base{
		{Alg: "des", Bdk: "0123456789abcdeffedcba9876543210", Ksn: "FFFF9876543210E00001"},
		{Alg: "aes", Kt: "AES128", Bdk: "0123456789abcdeffedcba9876543210", Ksn: "123456789012345600000001"},
	}
	i := 0
	for _, o := range origins {
		for _, b := range good {
			for _, op := range plainOps {
				for _, ik := range []Str{"", "unknown"} {
					for _, kind := range []string{"", "ping", "options", "bad", "other"} {
						i++
						if !eng.Mine(i) {
							continue
						}
						c := Cors{Kind: kind, Origin: Str(o), Base: b, O: op}
						c.O.Ik = ik
						switch kind {
						case "options":
							c.Path = Str("/" + routes[op.Op].path + "/abc")
						case "bad":
							c.Body = "{"
						case "other":
							c.Path, c.Method = "/nothing/"+Str(op.Op), "POST"
						}
						if !yield(&c) {
							return
						}
					}
				}
			}
		}
	}
}
