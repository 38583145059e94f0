package props

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	osexec "os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifharness/eng"

	"github.com/moov-io/dukpt"
	"pgregory.net/rapid"
)

// Cli is one run of the command line tool. Args is everything it is given; the
// rest says what is expected of it.
type Cli struct {
	Args []Str  `json:"args"`
	Want string `json:"want"`           // result, refusal, version or any
	Call *Call  `json:"call,omitempty"` // what is computed (result)
	Why  string `json:"why,omitempty"`  // why it must be refused
	How  string `json:"how,omitempty"`  // key type argument, for the round trip
	Env  []Str  `json:"env,omitempty"`  // environment variables that mean nothing
	In   Str    `json:"in,omitempty"`   // what could be read from the standard input
}

// cliRun is what a run did.
type cliRun struct {
	code   int
	signal string
	out    string
	err    string
}

var errSlow = errors.New("does not end")

func cliOnce(args []Str, env []Str, in Str, limit time.Duration) (*cliRun, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	a := make([]string, len(args))
	for i, s := range args {
		a[i] = string(s)
	}
	cmd := osexec.CommandContext(ctx, filepath.Join(eng.Cfg.Bin, "dukptcli"), a...)
	cmd.Env = []string{"GOTRACEBACK=all"}
	for _, e := range env {
		cmd.Env = append(cmd.Env, string(e))
	}
	if in != "" {
		cmd.Stdin = strings.NewReader(string(in))
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if ctx.Err() != nil {
		return nil, errSlow
	}
	r := &cliRun{out: so.String(), err: se.String()}
	var ee *osexec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		r.code = ee.ExitCode()
		if r.code < 0 {
			r.signal = ee.String()
		}
	default:
		eng.Harness("running dukptcli: %v", err)
	}
	return r, nil
}

var crashTrace = regexp.MustCompile(`(?m)^goroutine \d+ .*\[`)

// run runs the tool; crashes and endless runs are errors.
func (c *Cli) run(args []Str) (*cliRun, error) {
	r, err := cliOnce(args, c.Env, c.In, 20*time.Second)
	if err != nil {
		if r, err = cliOnce(args, c.Env, c.In, 120*time.Second); err != nil {
			return nil, fail("command line does not end", "args %q", args)
		}
	}
	if r.signal != "" {
		return nil, fail("command line is killed", "%s: args %q: %s", r.signal, args, clip(r.err))
	}
	if crashTrace.MatchString(r.err) {
		return nil, fail("command line crashes", "args %q: %s", args, clip(r.err))
	}
	return r, nil
}

func (r *cliRun) hasResult() bool {
	return strings.HasPrefix(r.out, "RESULT:") || strings.Contains(r.out, "\nRESULT:") || strings.HasPrefix(r.err, "RESULT:") || strings.Contains(r.err, "\nRESULT:")
}

func checkCli(r *eng.Rec, c *Cli) error {
	eng.HangAfter = 300 * time.Second
	res, err := c.run(c.Args)
	if err != nil {
		return err
	}
	switch c.Want {
	case "version":
		if res.code != 0 {
			return fail("version is not printed", "exit %d: args %q: %s", res.code, c.Args, clip(res.out+res.err))
		}
		if !strings.Contains(res.out, dukpt.Version) || strings.Count(res.out, "\n") != 1 || res.hasResult() {
			return fail("version output", "args %q: %q", c.Args, clip(res.out))
		}
		r.Eval(c, true, "version")
	case "refusal":
		switch {
		case res.hasResult():
			return fail("command line prints a result that it must refuse", "%s: args %q: %q", c.Why, c.Args, clip(res.out))
		case res.code == 0:
			return fail("command line exits 0 on a refusal", "%s: args %q: %q", c.Why, c.Args, clip(res.out+res.err))
		case strings.TrimSpace(res.out+res.err) == "":
			return fail("command line refuses without an explanation", "%s: args %q", c.Why, c.Args)
		}
		r.Eval(c, true, "refused: "+c.Why)
	case "any":
		switch {
		case res.code != 0 && res.hasResult():
			return fail("command line prints a result and fails", "exit %d: args %q: %q", res.code, c.Args, clip(res.out))
		case res.code != 0 && strings.TrimSpace(res.out+res.err) == "":
			return fail("command line refuses without an explanation", "args %q", c.Args)
		case res.code == 0 && strings.TrimSpace(res.out+res.err) == "":
			return fail("command line exits 0 without any output", "args %q", c.Args)
		}
		cl := "unspecified: refused"
		if res.code == 0 {
			cl = "unspecified: accepted"
		}
		r.Eval(c, true, cl)
	case "result":
		return c.checkResult(r, res)
	default:
		eng.Harness("expectation %q", c.Want)
	}
	return nil
}

// value is what a run printed as its result.
func (r *cliRun) value(args []Str) (string, error) {
	if r.code != 0 {
		return "", fail("command line fails", "exit %d: args %q: %s", r.code, args, clip(r.out+r.err))
	}
	v, ok := strings.CutPrefix(r.out, "RESULT: ")
	if ok {
		v, ok = strings.CutSuffix(v, "\n")
	}
	if !ok {
		return "", fail("command line output", "args %q: %q", args, clip(r.out))
	}
	return v, nil
}

func (c *Cli) checkResult(r *eng.Rec, res *cliRun) error {
	v, err := res.value(c.Args)
	if err != nil {
		return err
	}
	o, err := asOut(c.Call, v, nil)
	if err != nil {
		return fail("command line "+err.Error(), "args %q", c.Args)
	}
	if c.Call.Fn[4:] == "decpin" {
		err = verifyDecPin(c.Call, o)
	} else {
		err = verify(c.Call, o)
	}
	if err != nil {
		return fail("command line "+err.Error(), "args %q", c.Args)
	}
	cl := []string{"call " + c.Call.Fn}
	// what was encrypted decrypts with the same parameters
	if f := c.Call.Fn[4:]; f == "encpin" || f == "enc" {
		d := *c.Call
		d.Fn = d.Fn[:4] + "dec" + f[3:]
		d.Msg = o.B
		var args []Str
		for _, p := range cliParams(&d, c.How) {
			args = append(args, Str("-"+p.name+"="+p.value))
		}
		res, err := c.run(args)
		if err != nil {
			return err
		}
		v, err := res.value(args)
		if err != nil {
			return fail("own output does not decrypt: "+err.Error(), "made by args %q", c.Args)
		}
		o := Out{S: v}
		if f == "encpin" {
			err = verifyDecPin(&d, o)
		} else {
			bs := 8
			if d.Fn[:3] == "aes" {
				bs = 16
			}
			err = wantStr(&d, o, string(blocks(c.Call.Msg, bs)))
		}
		if err != nil {
			return fail("command line round trip: "+err.Error(), "args %q then %q", c.Args, args)
		}
		cl = append(cl, "round trip "+c.Call.Fn)
	}
	_, more := classify(c.Call)
	r.Eval(c, true, append(cl, more[1:]...)...)
	return nil
}

// param is one flag of the tool.
type param struct {
	name, value string
	need        bool // required
	def         bool // the default, may be left out
	exec        bool // execution flag
	alg         bool // algorithm and its key type
}

var cliPrefix = map[string]string{"ik": "ik", "tk": "tk", "encpin": "ep", "decpin": "dp", "mac": "gm", "cmac": "gm", "hmac": "gm", "enc": "en", "dec": "de"}

var cliExecs = []string{"ik", "tk", "ep", "dp", "gm", "en", "de"}

// cliParams are the flags that make the tool compute a call.
func cliParams(c *Call, keyType string) []param {
	aes := c.Fn[:3] == "aes"
	x := cliPrefix[c.Fn[4:]]
	act := string(c.Act)
	h := func(b Hex) string { return hex.EncodeToString(b) }
	ps := []param{{name: x, value: "true", exec: true}}
	if aes {
		ps = append(ps, param{name: "algorithm", value: "aes", alg: true}, param{name: "algorithm.key_type", value: keyType, alg: true, def: keyType == "aes128"})
	} else {
		ps = append(ps, param{name: "algorithm", value: "des", alg: true, def: true})
	}
	add := func(n, v string, need bool) { ps = append(ps, param{name: x + "." + n, value: v, need: need}) }
	action := func() {
		ps = append(ps, param{name: x + ".action", value: act, def: act == "request", need: x == "gm"})
	}
	switch x {
	case "ik":
		add("bdk", h(c.Key), true)
		add("ksn", h(c.Ksn), true)
		return ps
	case "tk":
		add("ik", h(c.Key), true)
		add("ksn", h(c.Ksn), true)
		return ps
	}
	add("tk", h(c.Key), true)
	if aes {
		add("ksn", h(c.Ksn), true)
	}
	switch x {
	case "ep":
		add("pin", string(c.Pin), true)
		add("pan", string(c.Pan), true)
		if !aes {
			add("format", string(c.Fmt), true)
		}
	case "dp":
		add("pin", h(c.Msg), true)
		add("pan", string(c.Pan), true)
		if !aes {
			add("format", string(c.Fmt), true)
		}
	case "gm":
		add("data", string(c.Msg), true)
		action()
		if aes {
			t := c.Fn[4:]
			ps = append(ps, param{name: "gm.type", value: t, def: t == "cmac", need: true})
		}
	case "en":
		add("data", string(c.Msg), true)
		add("iv", h(c.IV), true)
		action()
	case "de":
		add("data", h(c.Msg), true)
		add("iv", h(c.IV), true)
		action()
	}
	return ps
}

func isHexParam(c *Call, name string) bool {
	switch _, s, _ := strings.Cut(name, "."); s {
	case "bdk", "ik", "tk", "ksn", "iv":
		return true
	case "pin":
		return c.Fn[4:] == "decpin"
	case "data":
		return c.Fn[4:] == "dec"
	}
	return false
}

// arg writes a flag in one of the ways that Go's flags allow.
func (g G) arg(p *param) []Str {
	d := pick(g, "-", "-", "--")
	if p.exec {
		switch v := p.value; {
		case v == "true" && g.bool():
			return []Str{Str(d + p.name)}
		case v == "true":
			return []Str{Str(d + p.name + "=" + pick(g, "true", "1", "T"))}
		default:
			return []Str{Str(d + p.name + "=" + v)}
		}
	}
	if g.bool() {
		return []Str{Str(d + p.name), Str(p.value)}
	}
	return []Str{Str(d + p.name + "=" + p.value)}
}

// args renders flags in a random order.
func (g G) args(ps []param) (r []Str) {
	ps = append([]param{}, ps...)
	s := g.seed()
	if g.n(4) == 0 {
		s = nil
	}
	for i := len(ps) - 1; i > 0 && s != nil; i-- {
		j := s.n(i + 1)
		ps[i], ps[j] = ps[j], ps[i]
	}
	for i := range ps {
		r = append(r, g.arg(&ps[i])...)
	}
	return
}

func noNul(h Hex) Hex {
	h = append(Hex{}, h...)
	for i := range h {
		if h[i] == 0 {
			h[i] = 1
		}
	}
	return h
}

// cliCall draws a call that the tool's arguments can express.
func (g G) cliCall() (Call, string) {
	c := drawUnifiedCall(g)
	f := c.Fn[4:]
	if f != "ik" && f != "tk" && f != "encpin" && f != "decpin" && len(c.Msg) == 0 {
		c.Msg = Hex("0")
		if f == "dec" {
			c.Msg = g.bytesN(16)
		}
	}
	switch f {
	case "mac", "cmac", "hmac", "enc":
		c.Msg = noNul(c.Msg)
	}
	if f == "enc" || f == "dec" {
		if len(c.IV) == 0 {
			c.IV = g.bytesN(8)
		}
	}
	if c.Act != "" && c.Act != "response" {
		c.Act = "request"
	}
	if c.Act == "" && f != "enc" && f != "dec" {
		c.Act = "request"
	}
	return c, g.anyCase("AES" + strconv.Itoa(8*len(c.Key)))
}

func (g G) hexCases(c *Call, ps []param) {
	for i := range ps {
		if isHexParam(c, ps[i].name) {
			b, err := hex.DecodeString(ps[i].value)
			if err == nil {
				ps[i].value = hexCase(b, g.n(3))
			}
		}
	}
}

// others are flags of other commands: execution flags only when they rank
// after x (or any, when x is empty).
func (g G) others(x string, n int) (ps []param) {
	rank := -1
	for i, e := range cliExecs {
		if e == x {
			rank = i
		}
	}
	seen := map[string]bool{x: true}
	for ; n > 0; n-- {
		c, kt := g.cliCall()
		y := cliPrefix[c.Fn[4:]]
		if seen[y] {
			continue
		}
		seen[y] = true
		r := 0
		for i, e := range cliExecs {
			if e == y {
				r = i
			}
		}
		for _, p := range cliParams(&c, kt) {
			switch {
			case p.alg:
			case p.exec:
				if r > rank && x != "" {
					if g.one(4) {
						p.value = "false"
					}
					ps = append(ps, p)
				} else if g.one(3) {
					p.value = pick(g, "false", "0", "F")
					ps = append(ps, p)
				}
			case g.one(4): // left out
			case g.one(6) && !isHexParam(&c, p.name):
				p.value = ""
				ps = append(ps, p)
			default:
				ps = append(ps, p)
			}
		}
	}
	return
}

// surround gives a run an environment and an input that must not matter.
func (g G) surround(c *Cli) {
	p := g.seed()
	if p.n(3) != 0 {
		return
	}
	val := func() string {
		switch p.n(6) {
		case 0:
			return hex.EncodeToString(p.bytes([]int{8, 10, 12, 16, 24, 32}[p.n(6)]))
		case 1:
			return p.digits(4 + p.n(12))
		case 2:
			return strings.ReplaceAll(specialText(p), "\x00", "0")
		}
		return []string{"1", "true", "0", "json", "debug", "aes", "des", "hmac", "cmac", "response", "request", "AES128", "aes256", "ISO-0", "ISO-4", "-v", "upper", "yes"}[p.n(18)]
	}
	for n := 1 + p.n(4); n > 0; n-- {
		names := envNames()
		c.Env = append(c.Env, Str(names[p.n(len(names))]+"="+val()))
	}
	for i := range c.Args { // named like a flag
		if f, _, _ := strings.Cut(strings.TrimLeft(string(c.Args[i]), "-"), "="); p.n(8) == 0 && f != "" && c.Args[i][0] == '-' && !strings.Contains(f, "\x00") {
			f = strings.ToUpper(strings.ReplaceAll(f, ".", "_"))
			c.Env = append(c.Env, Str([]string{"", "DUKPT_", "DUKPTCLI_"}[p.n(3)]+f+"="+val()))
		}
	}
	if p.n(2) == 0 {
		c.In = Str(val() + []string{"", "\n", "\r\n"}[p.n(3)])
	}
}

var envName = regexp.MustCompile(`^[A-Z][A-Z0-9_]+$`)

// envNames are names that a program might look for, those in the code under
// test included.
var envNames = sync.OnceValue(func() []string {
	l := []string{"DEBUG", "VERBOSE", "TRACE", "LOG_FORMAT", "LOG_LEVEL", "NO_COLOR", "HOME", "LANG", "LC_ALL", "TZ", "PATH", "TERM", "CI", "TEST", "ENV", "APP_ENV", "DUKPT_DEBUG", "DUKPT_ALGORITHM", "DUKPT_KEY_TYPE", "DUKPT_BDK", "DUKPT_KSN", "BDK", "KSN", "IK", "TK", "PIN", "PAN", "ALGORITHM", "KEY_TYPE", "FORMAT", "ACTION", "IV", "DATA", "HTTP_BIND_ADDRESS", "OUTPUT", "POSIXLY_CORRECT"}
	for _, s := range eng.TheDict().Strs {
		// what the Go runtime reads is left alone
		if envName.MatchString(s) && len(s) < 64 && !strings.HasPrefix(s, "GO") {
			l = append(l, s)
		}
	}
	return l
})

func drawCliResult(t *rapid.T) Cli {
	g := G{t}
	c := drawCliProper(g)
	g.surround(&c)
	return c
}

func drawCliProper(g G) Cli {
	c, kt := g.cliCall()
	if g.one(40) {
		ps := append(g.others("", 1), g.others("dd", g.n(3))...)
		ps = append(ps, param{name: "v", value: "true", exec: true})
		seen := map[string]bool{}
		var qs []param
		for _, p := range ps {
			if !seen[p.name] {
				seen[p.name] = true
				qs = append(qs, p)
			}
		}
		return Cli{Args: g.args(qs), Want: "version"}
	}
	aes := c.Fn[:3] == "aes"
	x := cliPrefix[c.Fn[4:]]
	ps := cliParams(&c, kt)
	g.hexCases(&c, ps)
	var qs []param
	for _, p := range ps {
		if p.def && g.bool() {
			continue
		}
		qs = append(qs, p)
	}
	// what the other algorithm would need
	if !aes {
		if g.one(4) {
			qs = append(qs, param{name: "algorithm.key_type", value: g.anyCase(pick(g, "AES128", "AES192", "AES256", "", "TDES2", "x"))})
		}
		if x != "ik" && x != "tk" && g.one(4) {
			qs = append(qs, param{name: x + ".ksn", value: hex.EncodeToString(g.desKsn())})
		}
		if x == "gm" && g.one(4) {
			qs = append(qs, param{name: "gm.type", value: pick(g, "cmac", "hmac", "", "none", "CMAC", "x", "sha256")})
		}
	} else if (x == "ep" || x == "dp") && g.one(4) {
		qs = append(qs, param{name: x + ".format", value: string(pick(g, "ISO-4", "iso-4", string(g.format())))})
	}
	if g.one(3) {
		qs = append(qs, g.others(x, 1+g.n(3))...)
	}
	return Cli{Args: g.args(qs), Want: "result", Call: &c, How: kt}
}

func drawCliRefusal(t *rapid.T) Cli {
	g := G{t}
	c, kt := g.cliCall()
	aes := c.Fn[:3] == "aes"
	x := cliPrefix[c.Fn[4:]]
	out := Cli{Want: "refusal"}
	set := func(ps []param, name, v string) {
		for i := range ps {
			if ps[i].name == name {
				ps[i].value = v
				ps[i].def = false
				return
			}
		}
		eng.Harness("no flag %q for %s", name, c.Fn)
	}
	ps := cliParams(&c, kt)
	var needed, hexes []int
	for i, p := range ps {
		if p.need {
			needed = append(needed, i)
		}
		if isHexParam(&c, p.name) {
			hexes = append(hexes, i)
		}
	}
	g.hexCases(&c, ps)
	k := g.n(15)
	switch {
	case k < 3: // a required flag is missing or empty
		i := needed[g.n(len(needed))]
		out.Why = "missing " + ps[i].name
		if g.bool() || ps[i].name == "gm.action" || ps[i].name == "gm.type" {
			ps[i].value, ps[i].def = "", false
		} else {
			ps = append(ps[:i:i], ps[i+1:]...)
		}
	case k == 3:
		a := pick(g, "DES", "AES", "Aes", "", "tdes", "3des", " des", "aes ", "desaes", "aes128", "rsa", "none", strings.ReplaceAll(g.dictStr(), "\x00", ""))
		if a == "des" || a == "aes" {
			a = "x"
		}
		out.Why = "unknown algorithm"
		set(ps, "algorithm", a)
	case k == 4 && x == "gm":
		out.Why = "action"
		set(ps, "gm.action", pick(g, "Request", "RESPONSE", "verify", "both", "request ", "1", "mac"))
	case k == 5 && x == "gm" && aes:
		out.Why = "MAC type"
		set(ps, "gm.type", pick(g, "CMAC", "Hmac", "mac", "cmac ", "none", "retail", "sha256"))
	case k == 6 && aes:
		n := len(c.Key)
		if x == "ik" || x == "tk" || g.bool() {
			out.Why = "key type"
			v := pick(g, "", "aes", "128", "aes512", "aes64", "aes-128", "tdes2", "aes 128", "aes128 ", "des", "rsa")
			if x == "ik" || x == "tk" {
				v = "" // the derivations know the type from the key
			}
			set(ps, "algorithm.key_type", v)
		} else {
			out.Why = "key type of another length"
			m := pick(g, 16, 24)
			if m == n {
				m = 32
			}
			set(ps, "algorithm.key_type", g.anyCase("AES"+strconv.Itoa(8*m)))
		}
	case k < 10: // malformed hex
		i := hexes[g.n(len(hexes))]
		v := strings.ReplaceAll(g.badHex(ps[i].value), "\x00", "!")
		if validHex(v) {
			v += "0"
		}
		out.Why = "malformed hex in " + ps[i].name
		ps[i].value = v
	case k == 10: // none selected
		out.Why = "no command"
		ps[0].value = "false"
		if g.bool() {
			ps = ps[1:]
		}
		if g.bool() {
			ps = append(ps, g.others("", 1+g.n(3))...)
			seen := map[string]bool{}
			var qs []param
			for _, p := range ps {
				if p.exec {
					p.value = "false"
				}
				if !seen[p.name] {
					seen[p.name] = true
					qs = append(qs, p)
				}
			}
			ps = qs
		}
		if g.one(8) {
			ps = nil
		}
	default: // what the library has to refuse
		d := c
		for {
			d = mutate(g, c)
			if x == "ep" || x == "dp" { // PIN, PAN, format or block
				m := d
				d = c
				switch g.n(3) {
				case 0:
					d.Pan = m.Pan
				case 1:
					d.Fmt = m.Fmt
				default:
					d.Pin, d.Msg = m.Pin, m.Msg
				}
			}
			d.Kt = ktOf(len(d.Key), c.Fn == "aes.hmac")
			if !aesLenOK(len(d.Key)) {
				d.Kt = c.Kt
			}
			if why := mustFail(&d); why != "" {
				out.Why = why
				break
			}
		}
		clean := func(s Str) Str { return Str(strings.ReplaceAll(string(s), "\x00", "?")) }
		d.Pin, d.Pan, d.Fmt = clean(d.Pin), clean(d.Pan), clean(d.Fmt)
		if f := c.Fn[4:]; f != "decpin" && f != "dec" {
			d.Msg = noNul(d.Msg)
		}
		kt = strings.ToLower(strings.Replace(string(d.Kt), "HMAC", "AES", 1))
		ps = cliParams(&d, kt)
		if mustFail(&d) == "" { // undone by cleaning
			out.Want, out.Why = "any", ""
		}
	}
	var after []Str
	switch {
	case out.Why == "no command":
		if g.one(3) {
			after = g.words()
		}
	case strings.HasPrefix(out.Why, "missing ") && g.bool():
		ps = append(ps, siblings(out.Why[len("missing "):], ps, g.seed())...)
	case g.one(5):
		ps = append(ps, g.others(x, 1)...)
	}
	if g.one(10) {
		after = g.words()
	}
	out.Args = append(g.args(ps), after...)
	g.surround(&out)
	return out
}

// words are arguments that are not flags.
func (g G) words() (r []Str) {
	for n := 1 + g.n(2); n > 0; n-- {
		r = append(r, Str(pick(g, "ik", "tk", "ep", "dp", "gm", "en", "de", "v", "version", "help", "aes", "x", "1", "", "0123456789abcdef", "run", "true", "encrypt")))
	}
	return
}

// siblings are the flags of the same meaning that belong to other commands,
// with the values that the missing one could have had.
func siblings(missing string, ps []param, p *prng) (r []param) {
	x, s, _ := strings.Cut(missing, ".")
	val := map[string]string{"bdk": hex.EncodeToString(p.bytes(16)), "ik": hex.EncodeToString(p.bytes(16)), "tk": hex.EncodeToString(p.bytes(16)), "ksn": hex.EncodeToString(p.bytes(12)), "iv": hex.EncodeToString(p.bytes(8)),
		"pin": "1234", "pan": "4012345678909", "format": "ISO-0", "data": hex.EncodeToString(p.bytes(16)), "action": "request", "type": "cmac"}
	for _, q := range ps { // keep to the lengths in use
		if _, t, ok := strings.Cut(q.name, "."); ok && q.value != "" && t != s && len(q.value) <= 64 {
			val[t] = q.value
		}
	}
	for _, e := range cliExecs {
		for _, t := range []string{"bdk", "ksn", "ik", "tk", "pin", "pan", "format", "data", "action", "type", "iv"} {
			if e != x && (t == s || p.n(3) == 0) && cliHas[e][t] {
				r = append(r, param{name: e + "." + t, value: val[t]})
			}
		}
	}
	return
}

// cliHas are the sub flags of each command.
var cliHas = map[string]map[string]bool{
	"ik": {"bdk": true, "ksn": true},
	"tk": {"ik": true, "ksn": true},
	"ep": {"tk": true, "ksn": true, "pin": true, "pan": true, "format": true},
	"dp": {"tk": true, "ksn": true, "pin": true, "pan": true, "format": true},
	"gm": {"tk": true, "ksn": true, "data": true, "action": true, "type": true},
	"en": {"tk": true, "ksn": true, "data": true, "action": true, "iv": true},
	"de": {"tk": true, "ksn": true, "data": true, "action": true, "iv": true},
}

// drawCliAny draws arbitrary arguments.
func drawCliAny(t *rapid.T) Cli {
	g := G{t}
	var args []Str
	names := []string{"v", "algorithm", "algorithm.key_type", "h", "help", "x", "ik.kid"}
	for _, e := range cliExecs {
		names = append(names, e)
		for _, s := range []string{"bdk", "ksn", "ik", "tk", "pin", "pan", "format", "data", "action", "type", "iv"} {
			names = append(names, e+"."+s)
		}
	}
	val := func() string {
		switch g.n(8) {
		case 0:
			return ""
		case 1:
			return g.dictStr()
		case 2:
			return g.hexText()
		case 3:
			return string(g.seed().bytes(g.n(40)))
		case 4:
			return g.seed().digits(g.n(25))
		case 5:
			return pick(g, "true", "false", "0", "1", "-1", "aes", "des", "aes128", "AES256", "request", "response", "cmac", "hmac", "ISO-0", "ISO-4", "VISA3")
		default:
			return hex.EncodeToString(g.ubytes(pick(g, 0, 8, 10, 12, 16, 24, 32)))
		}
	}
	if g.bool() { // a proper command with something inserted
		c, kt := g.cliCall()
		ps := cliParams(&c, kt)
		for i := range ps {
			if g.one(6) {
				ps[i].value = val()
				ps[i].exec = false
			}
		}
		args = g.args(ps)
	}
	for n := g.n(9); n > 0; n-- {
		var a []Str
		name := pick(g, names...)
		switch g.n(7) {
		case 0:
			a = []Str{Str("-" + name)}
		case 1, 2:
			a = []Str{Str("-" + name + "=" + val())}
		case 3, 4:
			a = []Str{Str("--" + name), Str(val())}
		case 5:
			a = []Str{Str(pick(g, "-", "--", "---x", "=", "-=", "-=x", "--=", "ik", "-ik-", ""))}
		default:
			a = []Str{Str(val())}
		}
		p := g.n(len(args) + 1)
		args = append(append(append([]Str{}, args[:p]...), a...), args[p:]...)
	}
	for i := range args {
		args[i] = Str(strings.ReplaceAll(strings.ReplaceAll(string(args[i]), "\x00", "\x01"), "RESULT", "result"))
		args[i] = Str(strings.ReplaceAll(string(args[i]), "goroutine", "g"))
	}
	return Cli{Args: args, Want: "any"}
}

// missingFlags leaves out, or empties, each required flag of each command.
func missingFlags(yield func(*Cli) bool) {
	p := mixer("missingflags")
	i := 0
	for rep := 0; rep < gridN(2, 20); rep++ {
		for _, fn := range []string{"des.ik", "des.tk", "des.encpin", "des.decpin", "des.mac", "des.enc", "des.dec",
			"aes.ik", "aes.tk", "aes.encpin", "aes.decpin", "aes.cmac", "aes.hmac", "aes.enc", "aes.dec"} {
			n, nk, bs := 16, 10, 8
			if fn[:3] == "aes" {
				n, nk, bs = []int{16, 24, 32}[p.n(3)], 12, 16
			}
			c := Call{Fn: fn, Key: p.bytes(n), Ksn: p.bytes(nk), Msg: noNul(p.bytes(bs)), IV: p.bytes(bs), Pin: Str(p.digits(4 + p.n(9))), Pan: Str(p.digits(13 + p.n(7))), Fmt: Str(Formats[p.n(len(Formats))]), Act: []Str{"request", "response"}[p.n(2)]}
			ps := cliParams(&c, "aes"+strconv.Itoa(8*n))
			for k, q := range ps {
				for _, empty := range []bool{false, true} {
					if !q.need || (q.def || strings.HasSuffix(q.name, ".action") || strings.HasSuffix(q.name, ".type")) && !empty {
						continue
					}
					i++
					if !eng.Mine(i) {
						continue
					}
					var args []Str
					for j, r := range ps {
						switch {
						case j != k:
							args = append(args, Str("-"+r.name+"="+r.value))
						case empty:
							args = append(args, Str("-"+r.name+"="))
						}
					}
					if !yield(&Cli{Args: args, Want: "refusal", Why: "missing " + q.name}) {
						return
					}
					for _, s := range siblings(q.name, ps, p) {
						args = append(args, Str("-"+s.name+"="+s.value))
					}
					if !yield(&Cli{Args: args, Want: "refusal", Why: "missing " + q.name + " of several commands"}) {
						return
					}
				}
			}
		}
	}
}
