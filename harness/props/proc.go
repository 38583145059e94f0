package props

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	osexec "os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/eng"

	"github.com/moov-io/dukpt"
	"pgregory.net/rapid"
)

// Proc is one life of the server process.
type Proc struct {
	// listen addresses: "" is not given, "empty" is given empty, otherwise the
	// host part ("-" is no host)
	HTTPFlag  string `json:"httpFlag,omitempty"`
	HTTPEnv   string `json:"httpEnv,omitempty"`
	AdminFlag string `json:"adminFlag,omitempty"`
	AdminEnv  string `json:"adminEnv,omitempty"`
	LogFlag   string `json:"logFlag,omitempty"`
	LogEnv    string `json:"logEnv,omitempty"`
	Cert      string `json:"cert,omitempty"` // ecdsa, rsa, missing (a path to nothing), empty
	Key       string `json:"key,omitempty"`
	Style     int    `json:"style,omitempty"`
	Order     int    `json:"order,omitempty"`
	Signal    string `json:"signal"`
	InFlight  bool   `json:"inFlight,omitempty"` // a request is being answered when the signal arrives
	Delay     int    `json:"delay,omitempty"`    // milliseconds from the signal to the rest of that request
	Again     bool   `json:"again,omitempty"`    // and the signal is repeated meanwhile
	Load      string `json:"load,omitempty"`     // what else the API has to cope with
	Size      int    `json:"size,omitempty"`     // and how much of it
	Crowd     int    `json:"crowd,omitempty"`    // more requests in progress at the signal
	Idle      bool   `json:"idle,omitempty"`     // idle connections stay open
	Base      Base   `json:"base"`
	Hist      SHist  `json:"hist"`
}

const (
	sigStart = 60 * time.Second
	oneDial  = 10 * time.Second
)

var ports struct {
	sync.Mutex
	next int
}

// freePort is a port outside the range of outgoing connections that nobody
// listens on.
func freePort() int {
	ports.Lock()
	defer ports.Unlock()
	lo := 9000 + eng.Cfg.Shard*2900
	if ports.next == 0 {
		ports.next = os.Getpid() * 37 % 2900
	}
	for i := 0; i < 2900; i++ {
		ports.next = (ports.next + 1) % 2900
		p := lo + ports.next
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		l.Close()
		return p
	}
	eng.Harness("no free port")
	return 0
}

var certs struct {
	once sync.Once
	dir  string
	pool *x509.CertPool
	der  map[string][]byte
}

func makeCerts() {
	certs.once.Do(func() {
		dir, err := os.MkdirTemp("", "certs")
		if err != nil {
			eng.Harness("%v", err)
		}
		certs.dir, certs.pool, certs.der = dir, x509.NewCertPool(), map[string][]byte{}
		ec, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			eng.Harness("%v", err)
		}
		rs, err := rsa.GenerateKey(rand.Reader, 2048)
		if err != nil {
			eng.Harness("%v", err)
		}
		for name, key := range map[string]any{"ecdsa": ec, "rsa": rs} {
			tpl := &x509.Certificate{SerialNumber: big.NewInt(7), Subject: pkix.Name{CommonName: "localhost"}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
				DNSNames: []string{"localhost"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, IsCA: true, BasicConstraintsValid: true,
				KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
			var pub any = &ec.PublicKey
			if name == "rsa" {
				pub = &rs.PublicKey
			}
			der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, pub, key)
			if err != nil {
				eng.Harness("%v", err)
			}
			kb, err := x509.MarshalPKCS8PrivateKey(key)
			if err != nil {
				eng.Harness("%v", err)
			}
			c, _ := x509.ParseCertificate(der)
			certs.pool.AddCert(c)
			certs.der[name] = der
			for f, b := range map[string]*pem.Block{".crt": {Type: "CERTIFICATE", Bytes: der}, ".key": {Type: "PRIVATE KEY", Bytes: kb}} {
				if err := os.WriteFile(filepath.Join(dir, name+f), pem.EncodeToMemory(b), 0o600); err != nil {
					eng.Harness("%v", err)
				}
			}
		}
	})
}

func given(s string) bool { return s != "" && s != "empty" }

// server process under observation.
type process struct {
	cmd      *osexec.Cmd
	out, err bytes.Buffer
	done     chan struct{}
	werr     error
}

func (p *process) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *process) wait(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

func (p *process) text() string { // only after the end
	return clip(p.out.String()) + clip(p.err.String())
}

// stop ends a process that is not needed any more.
func (p *process) stop() {
	if !p.ended() {
		p.cmd.Process.Kill()
		<-p.done
	}
}

func addr(host string, port int) string {
	if host == "-" {
		host = ""
	}
	return fmt.Sprintf("%s:%d", host, port)
}

func listening(port int) bool {
	for _, h := range []string{"127.0.0.1", "[::1]"} {
		if h == "[::1]" && !haveV6() {
			continue
		}
		if c, err := net.DialTimeout("tcp", fmt.Sprintf("%s:%d", h, port), oneDial); err == nil {
			c.Close()
			return true
		}
	}
	return false
}

// haveV6 tells whether there is a loopback address of version 6.
var haveV6 = sync.OnceValue(func() bool {
	l, err := net.Listen("tcp", "[::1]:0")
	if err != nil {
		return false
	}
	l.Close()
	return true
})

// reach is the address under which a listen address can be reached.
func reach(host string, port int) string {
	if host != "[::1]" {
		host = "127.0.0.1"
	}
	return fmt.Sprintf("%s:%d", host, port)
}

// forward is a handler that sends requests on to the server process.
type forward struct {
	base   string
	client *http.Client
	head   http.Header // sent with every request
	failed error       // a request that got no answer
}

func (f *forward) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	q := r.Clone(context.Background())
	q.RequestURI = ""
	q.URL.Scheme, q.URL.Host, _ = strings.Cut(f.base, "://")
	q.Host = ""
	for k, v := range f.head {
		q.Header[k] = v
	}
	res, err := f.client.Do(q)
	if err != nil {
		f.failed = err
		w.WriteHeader(599)
		return
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		f.failed = err
		w.WriteHeader(599)
		return
	}
	for k, v := range res.Header {
		w.Header()[k] = v
	}
	w.WriteHeader(res.StatusCode)
	w.Write(b)
}

func get(c *http.Client, url string) (int, string, error) {
	res, err := c.Get(url)
	if err != nil {
		return 0, "", err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(io.LimitReader(res.Body, 1<<20))
	return res.StatusCode, string(b), err
}

// checkProc believes a failure only when it shows three times in a row, with
// other ports each time.
func checkProc(r *eng.Rec, c *Proc) error {
	eng.HangAfter = 1000 * time.Second
	for _, h := range []*string{&c.HTTPFlag, &c.HTTPEnv, &c.AdminFlag, &c.AdminEnv} {
		if *h == "[::1]" && !haveV6() { // a case from elsewhere
			*h = "127.0.0.1"
		}
	}
	var err error
	for i := 0; i < 3; i++ {
		var cl []string
		if cl, err = procOnce(c); err == nil {
			r.Eval(c, true, cl...)
			if i > 0 {
				r.Class("needed another try")
			}
			return nil
		}
	}
	return err
}

func procOnce(c *Proc) (classes []string, _ error) {
	makeCerts()
	httpPort := map[string]int{"flag": freePort(), "env": freePort()}
	adminPort := map[string]int{"flag": freePort(), "env": freePort()}
	env := []string{"GOTRACEBACK=all", "TMPDIR=" + os.TempDir()}
	var groups [][]string
	fl := func(name, v string) {
		d := "-"
		if c.Style&1 != 0 {
			d = "--"
		}
		if c.Style&2 != 0 {
			groups = append(groups, []string{d + name, v})
		} else {
			groups = append(groups, []string{d + name + "=" + v})
		}
	}
	val := func(kind string, port int) string {
		if kind == "empty" {
			return ""
		}
		return addr(kind, port)
	}
	if c.HTTPFlag != "" {
		fl("http.addr", val(c.HTTPFlag, httpPort["flag"]))
	}
	if c.HTTPEnv != "" {
		env = append(env, "HTTP_BIND_ADDRESS="+val(c.HTTPEnv, httpPort["env"]))
	}
	if c.AdminFlag != "" {
		fl("admin.addr", val(c.AdminFlag, adminPort["flag"]))
	}
	if c.AdminEnv != "" {
		env = append(env, "HTTP_ADMIN_BIND_ADDRESS="+val(c.AdminEnv, adminPort["env"]))
	}
	if c.LogFlag != "" {
		fl("log.format", c.LogFlag)
	}
	if c.LogEnv != "" {
		v := c.LogEnv
		if v == "empty" {
			v = ""
		}
		env = append(env, "LOG_FORMAT="+v)
	}
	file := func(kind, ext string) string {
		switch kind {
		case "empty":
			return ""
		}
		return filepath.Join(certs.dir, kind+ext)
	}
	if c.Cert != "" {
		env = append(env, "HTTPS_CERT_FILE="+file(c.Cert, ".crt"))
	}
	if c.Key != "" {
		env = append(env, "HTTPS_KEY_FILE="+file(c.Key, ".key"))
	}
	var args []string
	for i := range groups {
		args = append(args, groups[(i+c.Order)%len(groups)]...)
	}
	pick := func(flag, env string, p map[string]int) (want int, at string, other []int) {
		switch {
		case given(env):
			return p["env"], reach(env, p["env"]), []int{p["flag"]}
		case given(flag):
			return p["flag"], reach(flag, p["flag"]), []int{p["env"]}
		}
		eng.Harness("no address")
		return
	}
	api, apiAt, notAPI := pick(c.HTTPFlag, c.HTTPEnv, httpPort)
	adm, admAt, notAdm := pick(c.AdminFlag, c.AdminEnv, adminPort)
	secure := given(c.Cert) && given(c.Key)
	broken := secure && (c.Cert == "missing" || c.Key == "missing" || c.Cert != c.Key)

	p := &process{done: make(chan struct{})}
	p.cmd = osexec.Command(filepath.Join(eng.Cfg.Bin, "server"), args...)
	p.cmd.Env, p.cmd.Dir = env, os.TempDir()
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.err
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		eng.Harness("starting the server: %v", err)
	}
	go func() { p.werr = p.cmd.Wait(); close(p.done) }()
	defer p.stop()
	what := fmt.Sprintf("args %q env %q", args, env[2:])

	plain := &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{}}
	defer plain.CloseIdleConnections()
	vers := func(lo, hi uint16) *tls.Config {
		return &tls.Config{RootCAs: certs.pool, ServerName: "localhost", MinVersion: lo, MaxVersion: hi}
	}
	sec := &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{TLSClientConfig: vers(tls.VersionTLS12, 0)}}
	defer sec.CloseIdleConnections()

	if broken { // it must not fall back to serving without TLS
		for end := time.Now().Add(sigStart); time.Now().Before(end) && !p.ended(); {
			if st, b, err := get(plain, "http://"+apiAt+"/ping"); err == nil && st == 200 && strings.Contains(b, "PONG") {
				return nil, fail("API is served without TLS although certificate and key are configured", "%s", what)
			}
			if p.wait(20 * time.Millisecond) {
				break
			}
		}
		return []string{"unusable certificate"}, nil
	}

	// both listeners come up
	for end := time.Now().Add(sigStart); ; {
		if p.ended() {
			return nil, fail("server ends by itself", "%s: %v: %s", what, p.werr, p.text())
		}
		if listening(api) && listening(adm) {
			break
		}
		for _, q := range append(append([]int{}, notAPI...), notAdm...) {
			if listening(q) {
				return nil, fail("server listens on an overridden address", "%s: port %d", what, q)
			}
		}
		if time.Now().After(end) {
			return nil, fail("server does not listen where configured", "%s: want API on port %d (up: %v), admin on port %d (up: %v)", what, api, listening(api), adm, listening(adm))
		}
		time.Sleep(2 * time.Millisecond)
	}
	base, client := "http://"+apiAt, plain
	if secure {
		base, client = "https://"+apiAt, sec
	}
	if st, b, err := get(client, base+"/ping"); err != nil || st != 200 || !strings.Contains(b, "PONG") {
		return nil, fail("API is not served on the API address", "%s: status %d %q %v", what, st, clip(b), err)
	}
	admin := "http://" + admAt
	if st, b, err := get(plain, admin+"/version"); err != nil || st != 200 || strings.TrimSpace(b) != dukpt.Version {
		return nil, fail("admin version", "%s: status %d %q %v", what, st, clip(b), err)
	}
	if st, b, err := get(plain, admin+"/live"); err != nil || st != 200 {
		return nil, fail("admin liveness", "%s: status %d %q %v", what, st, clip(b), err)
	}
	for _, q := range append(notAPI, notAdm...) {
		if listening(q) {
			return nil, fail("server listens on an overridden address", "%s: port %d", what, q)
		}
	}

	// transport security
	hand := func(lo, hi uint16) (*tls.ConnectionState, error) {
		conn, err := tls.DialWithDialer(&net.Dialer{Timeout: oneDial}, "tcp", apiAt, vers(lo, hi))
		if err != nil {
			return nil, err
		}
		defer conn.Close()
		s := conn.ConnectionState()
		return &s, nil
	}
	if secure {
		if st, b, err := get(plain, "http://"+apiAt+"/ping"); err == nil && st == 200 && strings.Contains(b, "PONG") {
			return nil, fail("API is served without TLS although certificate and key are configured", "%s", what)
		}
		for _, v := range []uint16{tls.VersionTLS12, tls.VersionTLS13} {
			s, err := hand(v, v)
			if err != nil {
				return nil, fail("TLS version refused", "%s: %s: %v", what, tls.VersionName(v), err)
			}
			if len(s.PeerCertificates) == 0 || !bytes.Equal(s.PeerCertificates[0].Raw, certs.der[c.Cert]) {
				return nil, fail("another certificate is served", "%s", what)
			}
		}
		if _, err := hand(tls.VersionTLS10, tls.VersionTLS11); err == nil {
			return nil, fail("TLS below 1.2 is accepted", "%s", what)
		}
		classes = append(classes, "TLS "+c.Cert)
	} else if _, err := hand(tls.VersionTLS12, tls.VersionTLS13); err == nil {
		return nil, fail("API is served over TLS although certificate and key are not configured", "%s", what)
	} else {
		classes = append(classes, "no TLS")
	}

	// the API does its work
	f := &forward{base: base, client: client}
	rem := &httpSvc{h: f}
	w := &world{svc: rem, raw: rem, http: rem, bases: c.Hist.Bases, m: map[string]*mach{}, done: map[string]bool{}}
	for i := range c.Hist.Ops {
		o := &c.Hist.Ops[i]
		if o.Op == "delete" {
			continue
		}
		err := w.do(o)
		if f.failed != nil {
			err = fail("request is not answered", "%v", f.failed)
		}
		if err != nil {
			return nil, fail("API: "+err.Error(), "%s", what)
		}
	}
	if err := w.list(rem); err != nil {
		return nil, fail("API: "+err.Error(), "%s", what)
	}
	known := map[string]bool{}
	for ik := range w.m {
		known[ik] = true
	}
	if c.Load != "" {
		conf := vers(tls.VersionTLS12, 0)
		if !secure {
			conf = nil
		}
		err := c.load(w, f, apiAt, conf, known)
		if f.failed != nil {
			err = fail("request is not answered", "%v", f.failed)
		}
		if err != nil {
			return nil, fail("API under load ("+c.Load+"): "+err.Error(), "%s: size %d", what, c.Size)
		}
		classes = append(classes, "load "+c.Load)
	}
	sig := syscall.SIGINT
	if c.Signal == "TERM" {
		sig = syscall.SIGTERM
	}
	classes = append(classes, "signal "+c.Signal)
	if c.Again {
		classes = append(classes, "signal repeated")
	}
	var inflight func() error
	var crowd []*begun
	if c.InFlight {
		conf := vers(tls.VersionTLS12, 0)
		if !secure {
			conf = nil
		}
		first, err := beginCreate(&c.Base, apiAt, conf)
		if err != nil {
			return nil, fail("request in progress", "%s: %v", what, err)
		}
		if first != nil {
			defer first.conn.Close()
			inflight = func() error { return c.finish(p, first, api, sig, known) }
			classes = append(classes, "request in progress at the signal")
		}
		for j := 0; j < c.Crowd && first != nil; j++ {
			b := c.Base.sibling(2000 + j)
			q, err := beginCreate(&b, apiAt, conf)
			if err != nil || q == nil {
				return nil, fail("another request in progress", "%s: %d more: %v", what, j, err)
			}
			defer q.conn.Close()
			crowd = append(crowd, q)
		}
		if len(crowd) > 0 {
			classes = append(classes, "several requests in progress at the signal")
		}
	}
	if c.Idle {
		classes = append(classes, "idle connections at the signal")
	} else {
		plain.CloseIdleConnections()
		sec.CloseIdleConnections()
	}
	if err := p.cmd.Process.Signal(sig); err != nil {
		eng.Harness("signal: %v", err)
	}
	if inflight != nil {
		if err := inflight(); err != nil {
			return nil, fail("request in progress is not answered", "%s: SIG%s: %v", what, c.Signal, err)
		}
		for j, q := range crowd {
			if err := q.end(known); err != nil {
				return nil, fail("request in progress is not answered", "%s: SIG%s: the %d. other one of %d: %v", what, c.Signal, j+1, len(crowd), err)
			}
		}
	}
	if !p.wait(sigStart) {
		return nil, fail("server does not end", "%s: 60 s after SIG%s", what, c.Signal)
	}
	if p.werr != nil {
		return nil, fail("server does not end cleanly", "%s: SIG%s: %v: %s", what, c.Signal, p.werr, p.text())
	}
	if crashTrace.MatchString(p.err.String()) || crashTrace.MatchString(p.out.String()) {
		return nil, fail("server crashes", "%s: %s", what, p.text())
	}
	// its log
	format := c.LogFlag
	if given(c.LogEnv) {
		format = c.LogEnv
	}
	lines := 0
	for _, l := range strings.Split(p.out.String(), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		lines++
		var obj map[string]any
		isJSON := json.Unmarshal([]byte(l), &obj) == nil && obj != nil
		if isJSON != (format == "json") {
			return nil, fail("log format", "%s: configured %q, logged %s", what, format, clip(l))
		}
	}
	if lines > 0 {
		classes = append(classes, fmt.Sprintf("log format %q", format))
	}
	src := "flag"
	if given(c.HTTPEnv) {
		src = "environment"
		if given(c.HTTPFlag) {
			src = "environment over flag"
		}
	}
	classes = append(classes, "API address from "+src)
	for k := range w.done {
		classes = append(classes, "api "+k)
	}
	return classes, nil
}

// begun is a request to create a machine whose body is not yet complete.
type begun struct {
	conn net.Conn
	rd   *bufio.Reader
	rest []byte
	want *mach
}

// beginCreate begins a request; nil when the server does not ask for the body
// early.
func beginCreate(b *Base, to string, conf *tls.Config) (*begun, error) {
	conn, err := net.DialTimeout("tcp", to, oneDial)
	if err != nil {
		return nil, err
	}
	if conf != nil {
		conn = tls.Client(conn, conf)
	}
	body, _ := json.Marshal(map[string]string{"Algorithm": string(b.Alg), "AlgorithmKey": string(b.Kt), "BaseDerivativeKey": string(b.Bdk), "KeySerialNumber": string(b.Ksn)})
	half := len(body) / 2
	conn.SetDeadline(time.Now().Add(20 * time.Second))
	fmt.Fprintf(conn, "POST /machine HTTP/1.1\r\nHost: localhost\r\nContent-Type: application/json\r\nContent-Length: %d\r\nExpect: 100-continue\r\n\r\n", len(body))
	rd := bufio.NewReader(conn)
	line, err := rd.ReadString('\n')
	if err != nil || !strings.Contains(line, " 100 ") {
		conn.Close()
		return nil, nil
	}
	rd.ReadString('\n')
	conn.Write(body[:half])
	return &begun{conn: conn, rd: rd, rest: body[half:], want: b.model()}, nil
}

// end sends the rest and looks at the answer.
func (q *begun) end(known map[string]bool) error {
	defer q.conn.Close()
	q.conn.SetDeadline(time.Now().Add(25 * time.Second))
	q.conn.Write(q.rest)
	res, err := http.ReadResponse(q.rd, nil)
	if err != nil {
		return err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		return err
	}
	obj, err := answer(res.StatusCode, b)
	if known[q.want.ik] {
		if err == nil {
			return fmt.Errorf("duplicate creation succeeds")
		}
		return nil
	}
	if err != nil {
		return err
	}
	known[q.want.ik] = true
	if ik, err := field[string](obj, "ik"); err != nil || ik != q.want.ik {
		return fmt.Errorf("initial key %q want %q: %v", ik, q.want.ik, err)
	}
	return nil
}

// finish ends a request after the signal.
func (c *Proc) finish(p *process, q *begun, api int, sig os.Signal, known map[string]bool) error {
	end := time.Now().Add(30 * time.Second)
	for listening(api) {
		if time.Now().After(end) {
			return errors.New("new connections are accepted 30 s after the signal")
		}
		time.Sleep(time.Millisecond)
	}
	if c.Again {
		p.cmd.Process.Signal(sig)
		time.Sleep(5 * time.Millisecond)
	}
	if c.Delay > 0 {
		time.Sleep(time.Duration(c.Delay) * time.Millisecond)
		if c.Again {
			p.cmd.Process.Signal(sig)
		}
		if p.ended() {
			return fmt.Errorf("server ended before the request was complete (%d ms after the signal)", c.Delay)
		}
	}
	return q.end(known)
}

// load is what a server in use has to cope with.
func (c *Proc) load(w *world, f *forward, to string, conf *tls.Config, known map[string]bool) error {
	b := c.Base.sibling(1000)
	w.bases = append(w.bases, b)
	me := len(w.bases) - 1
	if err := w.do(&SOp{Op: "create", M: me}); err != nil {
		return err
	}
	for ik := range w.m {
		known[ik] = true
	}
	switch c.Load {
	case "long data":
		for _, o := range []SOp{
			{Op: "mac", M: me, Msg: cycle([]byte("abcdefg"), c.Size), Act: "request", Mac: "cmac"},
			{Op: "enc", M: me, Msg: cycle([]byte("0123456789"), c.Size+5), Act: "response", IV: Hex{}},
		} {
			if err := w.do(&o); err != nil {
				return err
			}
		}
	case "long headers":
		f.head = http.Header{"Cookie": {"session=" + strings.Repeat("a", c.Size)}, "X-Request-Id": {strings.Repeat("b", c.Size/8)}}
		defer func() { f.head = nil }()
		for _, o := range []SOp{{Op: "get", M: me}, {Op: "next", M: me}} {
			if err := w.do(&o); err != nil {
				return err
			}
		}
	case "long name":
		if err := w.do(&SOp{Op: "get", M: me, Ik: Str(strings.Repeat("0", c.Size))}); err != nil {
			return err
		}
	case "many connections": // each of them with a request that is not complete
		var l []*begun
		for j := 0; j < c.Size; j++ {
			s := c.Base.sibling(3000 + j)
			q, err := beginCreate(&s, to, conf)
			if err != nil {
				return fail("connection refused", "after %d: %v", j, err)
			}
			if q == nil {
				return nil
			}
			defer q.conn.Close()
			l = append(l, q)
		}
		if err := w.do(&SOp{Op: "next", M: me}); err != nil {
			return err
		}
		for j, q := range l {
			if err := q.end(known); err != nil {
				return fail("one of many requests", "the %d. of %d: %v", j+1, len(l), err)
			}
		}
	case "many requests":
		for j := 0; j < c.Size; j++ {
			if err := w.do(&SOp{Op: []string{"next", "get", "list"}[j%3], M: me}); err != nil {
				return fail("one of many requests", "the %d. of %d: %v", j+1, c.Size, err)
			}
		}
	}
	return nil
}

// slowRequests are lives that end with a request that takes its time.
func slowRequests(yield func(*Proc) bool) {
	p := mixer("slowrequests")
	loads := []Proc{{Load: "many requests", Size: 6000}, {Load: "many connections", Size: 700}, {Load: "long data", Size: 9 << 20}, {Load: "long headers", Size: 900000}, {Load: "long name", Size: 120000}}
	for i := 0; i < gridN(1, 6)*eng.Cfg.Shards+len(loads); i++ {
		c := Proc{HTTPFlag: "127.0.0.1", AdminFlag: "127.0.0.1", Signal: []string{"INT", "TERM"}[p.n(2)], InFlight: true}
		c.Again = p.n(3) == 0
		c.Delay = []int{1500, 3500, 5500, 7500, 10500, 12500, 15500, 20500}[i%8] + p.n(500)
		if p.n(2) == 0 {
			c.Cert, c.Key = "ecdsa", "ecdsa"
		}
		switch p.n(5) { // where the addresses come from
		case 0:
			c.HTTPFlag, c.HTTPEnv, c.AdminFlag, c.AdminEnv = "", "127.0.0.1", "", "127.0.0.1"
		case 1:
			c.HTTPEnv, c.AdminEnv = "127.0.0.1", "127.0.0.1"
		case 2:
			c.HTTPEnv = "127.0.0.1"
		case 3:
			c.AdminEnv, c.AdminFlag = "127.0.0.1", ""
		}
		c.Base = Base{Alg: "aes", Kt: "AES128", Bdk: Str(hex.EncodeToString(p.bytes(16))), Ksn: Str(hex.EncodeToString(p.bytes(12)))}
		if p.n(2) == 0 {
			c.Base = Base{Alg: "des", Bdk: Str(hex.EncodeToString(p.bytes(16))), Ksn: Str(hex.EncodeToString(p.bytes(10)))}
		}
		c.Hist = SHist{Bases: []Base{c.Base}, HTTP: true}
		if j := i - gridN(1, 6)*eng.Cfg.Shards; j >= 0 {
			c.Load, c.Size, c.InFlight, c.Again, c.Delay = loads[j].Load, loads[j].Size, false, false, 0
		}
		if eng.Mine(i) && !yield(&c) {
			return
		}
	}
}

func drawProc(t *rapid.T) Proc {
	g := G{t}
	host := func() string {
		if haveV6() && g.one(4) {
			return "[::1]"
		}
		return pick(g, "127.0.0.1", "localhost", "-", "0.0.0.0")
	}
	two := func() (f, e string) {
		switch g.n(6) {
		case 0:
			return host(), ""
		case 1:
			return "", host()
		case 2:
			return host(), "empty"
		case 3:
			return "empty", host()
		default:
			return host(), host()
		}
	}
	c := Proc{Style: g.n(4), Order: g.n(3), Signal: pick(g, "INT", "TERM"), InFlight: g.bool()}
	c.Again = c.InFlight && g.one(3)
	if p := g.seed(); p.n(3) == 0 {
		c.Load = []string{"long data", "long headers", "long name", "many connections", "many requests"}[p.n(5)]
		switch c.Load {
		case "long data":
			c.Size = 1 << (10 + p.n(12))
		case "long headers":
			c.Size = 1 << (10 + p.n(10))
		case "long name":
			c.Size = 1 << (8 + p.n(9))
		case "many connections":
			c.Size = 2 << p.n(7)
		default:
			c.Size = 20 << p.n(5)
		}
		c.Size += p.n(9)
	}
	if p := g.seed(); c.InFlight && p.n(3) == 0 {
		c.Crowd = 1 << p.n(6)
	}
	if p := g.seed(); p.n(3) == 0 {
		c.Idle = true
	}
	c.HTTPFlag, c.HTTPEnv = two()
	c.AdminFlag, c.AdminEnv = two()
	c.LogFlag = pick(g, "", "json", "plain", "json", "logfmt")
	c.LogEnv = pick(g, "", "json", "plain", "empty", "logfmt")
	if p := g.seed(); p.n(8) == 0 {
		l := []string{"JSON", "Json", "json ", " json", "jsonl", "xjson", "js", "j", "json5", "plain,json", "text", "ndjson", "JSON-lines", "true", "1"}
		if w := l[p.n(len(l))]; p.n(2) == 0 {
			c.LogFlag = w
		} else {
			c.LogEnv = w
		}
	}
	switch g.n(8) {
	case 0, 1:
		c.Cert = pick(g, "ecdsa", "rsa")
		c.Key = c.Cert
	case 2:
		c.Cert, c.Key = pick(g, "ecdsa", "rsa", "missing"), pick(g, "", "empty")
	case 3:
		c.Key, c.Cert = pick(g, "ecdsa", "rsa", "missing"), pick(g, "", "empty")
	case 4:
		if g.bool() {
			c.Cert, c.Key = pick(g, "ecdsa", "missing"), pick(g, "rsa", "missing")
		} else {
			c.Cert, c.Key = "ecdsa", "ecdsa"
		}
	}
	c.Hist = drawHist(profile{http: true, short: true, unk: 10, wild: 8, weight: map[string]int{"create": 5, "get": 3, "list": 2, "next": 5, "encpin": 2, "decpin": 2, "mac": 2, "enc": 2, "dec": 2}}, 8)(t)
	if len(c.Hist.Ops) > 14 {
		c.Hist.Ops = c.Hist.Ops[:14]
	}
	p := profile{http: true}
	for {
		if c.Base = g.base(nil, &p); c.Base.model() != nil {
			return c
		}
	}
}
