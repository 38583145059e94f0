package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"sync"
	"unicode/utf16"

	"verifharness/eng"

	"github.com/moov-io/dukpt/pkg/server"
)

// httpSvc is a server.Service that works through the HTTP handler of another
// one.
type httpSvc struct {
	h     http.Handler
	under server.Service
	// override is sent instead of the next request
	override *http.Request
	// style other than zero varies what must not matter: headers, query, layout
	// of the body and how it is transferred
	style int
	// heads come with every request that has not got them
	heads [][2]string
}

func newHTTPSvc(s server.Service) *httpSvc {
	return &httpSvc{h: server.MakeHTTPHandler(s), under: s}
}

// httpErr is a failed request.
type httpErr struct {
	status  int
	body    string
	problem string // what is wrong with the way it failed
}

func (e *httpErr) Error() string { return fmt.Sprintf("HTTP %d %s", e.status, clip(e.body)) }

func (e *httpErr) Is(target error) bool {
	switch target {
	case server.ErrNotFound:
		return e.status == http.StatusNotFound
	case server.ErrAlreadyExists:
		return e.status == http.StatusBadRequest
	}
	return false
}

// do sends a request; a panic of the handler is returned as an error.
func (h *httpSvc) do(req *http.Request) (*httptest.ResponseRecorder, error) {
	for _, x := range h.heads {
		if req.Header.Get(x[0]) == "" {
			req.Header.Set(x[0], x[1])
		}
	}
	w := httptest.NewRecorder()
	if p := eng.Try(func() { h.h.ServeHTTP(w, req) }); p != nil {
		return nil, p
	}
	return w, nil
}

// failureProblem says what is wrong with the answer to a request that failed.
func failureProblem(status int, body []byte) string {
	var obj map[string]json.RawMessage
	if status < 400 {
		return "status below 400"
	}
	if err := json.Unmarshal(body, &obj); err != nil || obj == nil {
		return "not a JSON object"
	}
	var msg string
	for k, v := range obj {
		if strings.EqualFold(k, "error") {
			if err := json.Unmarshal(v, &msg); err != nil {
				return "error member is not a string"
			}
		}
	}
	if msg == "" {
		return "no error message"
	}
	return ""
}

// send makes a request and returns the JSON object of a successful answer.
func (h *httpSvc) send(method, path string, body any) (map[string]json.RawMessage, error) {
	var text []byte
	if body != nil {
		b, err := json.Marshal(body)
		if err != nil {
			eng.Harness("%v", err)
		}
		text = b
	}
	var req *http.Request
	if h.style != 0 {
		req = styled(&prng{uint64(h.style)}, method, path, body)
	} else {
		req = httptest.NewRequest(method, path, bytes.NewReader(text))
	}
	if h.override != nil {
		req, h.override = h.override, nil
	}
	w, err := h.do(req)
	if err != nil {
		return nil, err
	}
	return answer(w.Code, w.Body.Bytes())
}

// answer takes an answer apart: anything but 200 and a JSON object without an
// error is a failure.
func answer(status int, body []byte) (map[string]json.RawMessage, error) {
	var obj map[string]json.RawMessage
	jerr := json.Unmarshal(body, &obj)
	bad := status != http.StatusOK || jerr != nil || obj == nil
	if e, ok := obj["error"]; ok && string(e) != "null" {
		bad = true
	}
	if bad {
		return nil, &httpErr{status: status, body: string(body), problem: failureProblem(status, body)}
	}
	return obj, nil
}

func field[T any](obj map[string]json.RawMessage, name string) (T, error) {
	var v T
	raw, ok := obj[name]
	if !ok {
		return v, fmt.Errorf("answer has no member %q", name)
	}
	if err := json.Unmarshal(raw, &v); err != nil {
		return v, fmt.Errorf("member %q: %v", name, err)
	}
	return v, nil
}

func (h *httpSvc) str(path, member string, body any) (string, error) {
	obj, err := h.send("POST", path, body)
	if err != nil {
		return "", err
	}
	return field[string](obj, member)
}

func ikPath(route, ik string) string { return "/" + route + "/" + url.PathEscape(ik) }

func (h *httpSvc) CreateMachine(m *server.Machine) error {
	if m.CurrentKSN != "" || m.InitialKey != "" || m.TransactionKey != "" {
		eng.Harness("machine with preset fields over HTTP")
	}
	obj, err := h.send("POST", "/machine", map[string]string{
		"Algorithm": m.Algorithm, "AlgorithmKey": m.AlgorithmKey, "BaseDerivativeKey": m.BaseDerivativeKey, "KeySerialNumber": m.KeySerialNumber,
	})
	if err != nil {
		return err
	}
	ik, err := field[string](obj, "ik")
	if err != nil {
		return err
	}
	g, err := field[*server.Machine](obj, "machine")
	if err != nil {
		return err
	}
	if g == nil || g.InitialKey != ik {
		return fmt.Errorf("machine in the answer: %+v, ik %s", g, ik)
	}
	*m = *g
	return nil
}

func (h *httpSvc) GetMachine(ik string) (*server.Machine, error) {
	obj, err := h.send("GET", ikPath("machine", ik), nil)
	if err != nil {
		return nil, err
	}
	return field[*server.Machine](obj, "machine")
}

func (h *httpSvc) GetMachines() []*server.Machine {
	obj, err := h.send("GET", "/machines", nil)
	if err != nil {
		panic(err)
	}
	l, err := field[[]*server.Machine](obj, "machines")
	if err != nil {
		panic(err)
	}
	return l
}

// MakeNextKSN returns a machine that has only its current KSN.
func (h *httpSvc) MakeNextKSN(ik string) (*server.Machine, error) {
	s, err := h.str(ikPath("generate_ksn", ik), "ksn", nil)
	if err != nil {
		return nil, err
	}
	return &server.Machine{CurrentKSN: s}, nil
}

func (h *httpSvc) DeleteMachine(ik string) error { return h.under.DeleteMachine(ik) }

func (h *httpSvc) EncryptPin(ik, pin, pan, format string) (string, error) {
	return h.str(ikPath("encrypt_pin", ik), "encrypted", map[string]string{"pin": pin, "pan": pan, "format": format})
}

func (h *httpSvc) DecryptPin(ik, ct, pan, format string) (string, error) {
	return h.str(ikPath("decrypt_pin", ik), "decrypted", map[string]string{"encrypted": ct, "pan": pan, "format": format})
}

func (h *httpSvc) GenerateMac(ik, data, action, macType string) (string, error) {
	return h.str(ikPath("generate_mac", ik), "generated", map[string]string{"data": data, "action": action, "macType": macType})
}

func (h *httpSvc) EncryptData(ik, data, action, iv string) (string, error) {
	return h.str(ikPath("encrypt_data", ik), "encrypted", map[string]string{"data": data, "action": action, "iv": iv})
}

func (h *httpSvc) DecryptData(ik, ct, action, iv string) (string, error) {
	return h.str(ikPath("decrypt_data", ik), "data", map[string]string{"data": ct, "action": action, "iv": iv})
}

// pieces hands out its text a little at a time.
type pieces struct {
	text []byte
	p    *prng
}

func (r *pieces) Read(b []byte) (int, error) {
	if len(r.text) == 0 {
		return 0, io.EOF
	}
	n := min(len(b), len(r.text), 1+r.p.n(7)*r.p.n(97))
	copy(b, r.text[:n])
	r.text = r.text[n:]
	if len(r.text) == 0 && r.p.n(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// jsonText writes s as a JSON string with escapes that need not be there.
func jsonText(p *prng, s string) string {
	var b strings.Builder
	b.WriteByte('"')
	often := p.n(4)
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '/' && p.n(2) == 0:
			b.WriteString("\\/")
		case r < 0x20 || often > 0 && p.n(often*often) == 0:
			if a, c := utf16.EncodeRune(r); r >= 0x10000 {
				fmt.Fprintf(&b, "\\u%04x\\u%04X", a, c)
			} else {
				fmt.Fprintf(&b, []string{"\\u%04x", "\\u%04X"}[p.n(2)], r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// jsonObject writes the members in any order and layout, possibly with members
// that mean nothing.
func jsonObject(p *prng, m map[string]string) string {
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for i := range keys {
		j := i + p.n(len(keys)-i)
		keys[i], keys[j] = keys[j], keys[i]
	}
	gap := func() string { return []string{"", "", " ", "\n", "\t", "\r\n  "}[p.n(6)] }
	if p.n(2) == 0 {
		gap = func() string { return "" }
	}
	var l []string
	odd := func() {
		for p.n(6) == 0 {
			l = append(l, gap()+jsonText(p, []string{"comment", "requestId", "terminal", "_", "x-y", "amount", "keyId", "version"}[p.n(8)])+gap()+":"+gap()+[]string{`""`, "null", "17", "-1.5e3", "true", `[1,"a"]`, `{"pin":"9999","data":"00"}`, `"pin"`, "[]", "{}"}[p.n(10)]+gap())
		}
	}
	for _, k := range keys {
		odd()
		l = append(l, gap()+jsonText(p, k)+gap()+":"+gap()+jsonText(p, m[k])+gap())
	}
	odd()
	return gap() + "{" + strings.Join(l, ",") + "}" + gap()
}

var someQueries = []string{"", "pretty=1", "format=ISO-3", "action=response&macType=hmac", "ik=unknown", "data=00&iv=11", "_method=DELETE", "limit=1", "page=2&per_page=1", "skip=1", "count=1", "skip=0&count=0", "offset=1", "fields=ik", "sort=ik", "q=0", "filter=aes", "algorithm=des", "envelope=false", "version=2", "indent=2", "pin=9999&pan=1", "callback=f", "debug=true", "x=%20+%26"}

var someHeads = [][2]string{
	{"Content-Type", "application/json"}, {"Content-Type", "application/json; charset=utf-8"}, {"Content-Type", "text/plain"}, {"Content-Type", "application/x-www-form-urlencoded"}, {"Content-Type", "multipart/form-data; boundary=x"}, {"Content-Type", "application/octet-stream"}, {"Content-Type", "application/vnd.api+json"},
	{"Accept", "*/*"}, {"Accept", "application/json"}, {"Accept", "text/html,application/xml;q=0.9"}, {"Accept", "text/plain"}, {"Accept-Encoding", "identity"}, {"Accept-Language", "de"},
	{"X-Request-Id", "7f3c"}, {"X-User-Id", "u1"}, {"User-Agent", "curl/8.1"}, {"Origin", "https://example.com"}, {"Cookie", "session=1; ik=unknown"}, {"Authorization", "Bearer abc"}, {"Cache-Control", "no-cache"}, {"If-None-Match", "*"}, {"If-Modified-Since", "Mon, 02 Jan 2034 15:04:05 GMT"}, {"X-Http-Method-Override", "DELETE"}, {"X-Forwarded-For", "10.0.0.1"}, {"X-Forwarded-Proto", "https"}, {"Range", "bytes=0-3"}, {"X-Requested-With", "XMLHttpRequest"}, {"Idempotency-Key", "1"}, {"Connection", "close"}, {"Prefer", "return=minimal"},
}

// moreHeads are headers that browsers, proxies and debuggers add.
var moreHeads = func() (l [][2]string) {
	add := func(name string, values ...string) {
		for _, v := range values {
			l = append(l, [2]string{name, v})
		}
	}
	add("Sec-Fetch-Mode", "cors", "no-cors", "navigate", "same-origin", "websocket")
	add("Sec-Fetch-Site", "cross-site", "same-origin", "same-site", "none")
	add("Sec-Fetch-Dest", "empty", "document", "iframe")
	add("Sec-Ch-Ua", "\"x\";v=\"1\"")
	add("Access-Control-Request-Method", "GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT", "post", "PROPFIND", "")
	add("Access-Control-Request-Headers", "content-type", "Content-Type, Authorization", "x-custom", "*", "")
	add("Access-Control-Request-Private-Network", "true")
	add("Origin-Agent-Cluster", "?1")
	add("Referer", "https://evil.example/", "http://localhost:3000/x", "null", "about:blank")
	for _, n := range []string{"X-Origin", "X-Forwarded-Host", "X-Forwarded-Server", "X-Real-Ip", "X-Client-Ip", "Forwarded", "X-Original-Url", "X-Rewrite-Url", "X-Forwarded-Prefix", "X-Forwarded-Port", "X-Forwarded-Uri", "X-Host", "Front-End-Https", "Via"} {
		add(n, "https://evil.example", "10.0.0.1", "/machines")
	}
	for _, n := range []string{"X-Http-Method", "X-Method-Override", "X-Http-Method-Override"} {
		add(n, "GET", "OPTIONS", "DELETE", "PATCH")
	}
	for _, n := range []string{"Dnt", "X-Debug", "X-Dry-Run", "X-Test", "X-Trace", "X-Internal", "X-Admin", "X-Health-Check", "X-Skip-Validation", "X-Legacy", "X-No-Cors", "X-Pretty", "X-Raw", "X-Force", "X-Async", "Save-Data", "Upgrade-Insecure-Requests"} {
		add(n, "1", "true")
	}
	add("X-Api-Version", "1", "2", "v2")
	add("X-Api-Key", "k")
	add("Accept-Version", "2")
	add("Traceparent", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01")
	add("Purpose", "prefetch")
	add("Sec-Purpose", "prefetch")
	add("Pragma", "no-cache")
	add("Te", "trailers")
	add("Upgrade", "websocket", "h2c")
	add("Content-Language", "de")
	add("Content-Encoding", "identity")
	add("Content-Md5", "XrY7u+Ae7tCTyyK7j1rNww==")
	add("Digest", "sha-256=x")
	add("If-Match", "*", "\"x\"")
	add("If-Unmodified-Since", "Mon, 02 Jan 2006 15:04:05 GMT")
	add("If-Range", "x")
	add("Accept", "application/xml", "text/html", "application/octet-stream", "application/json;q=0", "")
	add("Accept-Encoding", "gzip", "br", "*;q=0")
	add("Accept-Charset", "iso-8859-1", "utf-16")
	add("User-Agent", "", "kube-probe/1.29", "ELB-HealthChecker/2.0", "Mozilla/5.0 (X11; Linux x86_64)", "Go-http-client/1.1", "PostmanRuntime/7.3")
	add("Authorization", "Basic dXNlcjpwYXNz", "", "Digest x")
	add("Cookie", "debug=1", "")
	add("Max-Forwards", "0")
	add("Keep-Alive", "timeout=5")
	add("Prefer", "respond-async", "return=representation")
	return l
}()

var (
	headName = regexp.MustCompile(`^[A-Z][A-Za-z]*(-[A-Za-z0-9]+)+$`)
	headVal  = regexp.MustCompile(`^[ -~]{0,40}$`)
)

// dictHeads are the headers named in the code under test, with values named
// there or usual ones. What has a say in the answer by its standard (Origin)
// or tells how the body is sent is left out.
var dictHeads = sync.OnceValue(func() (l [][2]string) {
	vals := []string{"1", "true", "x", ""}
	for _, s := range eng.TheDict().Strs {
		if headVal.MatchString(s) && len(vals) < 300 {
			vals = append(vals, s)
		}
	}
	for _, s := range eng.TheDict().Strs {
		if headName.MatchString(s) && !framing[s] && len(s) < 40 {
			for _, v := range vals {
				l = append(l, [2]string{s, strings.TrimSpace(v)})
			}
		}
	}
	return l
})

var framing = map[string]bool{"Content-Length": true, "Transfer-Encoding": true, "Content-Encoding": true}

// anyHead is one of all those headers.
func anyHead(p *prng) [2]string {
	switch d := dictHeads(); {
	case p.n(3) == 0 && len(d) > 0:
		return d[p.n(len(d))]
	case p.n(2) == 0:
		return moreHeads[p.n(len(moreHeads))]
	}
	return someHeads[p.n(len(someHeads))]
}

// styled is the request that send makes plainly.
func styled(p *prng, method, path string, body any) *http.Request {
	text := ""
	if m, ok := body.(map[string]string); ok {
		text = jsonObject(p, m)
	} else if body != nil {
		eng.Harness("body %T", body)
	} else if method == "POST" && p.n(4) == 0 {
		text = []string{"{}", "null", " ", "{\"ik\": \"x\"}", "\n"}[p.n(5)]
	}
	if p.n(5) == 0 {
		path += "?" + someQueries[p.n(len(someQueries))]
	}
	var rd io.Reader = strings.NewReader(text)
	how := p.n(4)
	if how > 1 {
		rd = &pieces{[]byte(text), &prng{p.next()}}
	}
	req := httptest.NewRequest(method, path, rd)
	req.ContentLength = int64(len(text))
	if how == 1 && method != "GET" || how == 2 && len(text) > 0 { // length unknown
		req.ContentLength, req.TransferEncoding = -1, []string{"chunked"}
	}
	for k := p.n(5); k > 0; k-- {
		h := anyHead(p)
		req.Header.Set(h[0], h[1])
	}
	return req
}
