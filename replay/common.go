package j8a

// Replay harness shared by all properties: drives the real code with directed and
// seeded random cases and reports inputs on which a property does not hold.

import (
	"bytes"
	"compress/gzip"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

type vrf struct {
	t        *testing.T
	out      *os.File
	mu       sync.Mutex
	fails    int
	kinds    map[string]int
	rnd      *rand.Rand
	prop     string
	thorough bool
}

func vrfRun(t *testing.T, prop string, f func(v *vrf)) {
	v := &vrf{t: t, kinds: map[string]int{}, prop: prop, thorough: os.Getenv("VERIF_TIER") == "thorough"}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	v.rnd = rand.New(rand.NewSource(int64(seed) + 7))
	if p := os.Getenv("VERIF_OUT"); p != "" {
		v.out, _ = os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	}
	log.Logger = zerolog.New(io.Discard)
	zerolog.SetGlobalLevel(zerolog.InfoLevel)
	f(v)
	for _, k := range vrfKeys(v.kinds) {
		v.line("CASES %s %d", strings.Replace(k, " ", "_", -1), v.kinds[k])
	}
	v.line("DONE")
	if v.fails > 0 {
		t.Fail()
	}
}

func vrfKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (v *vrf) line(f string, a ...interface{}) {
	s := strings.Replace(fmt.Sprintf(f, a...), "\n", "\\n", -1) + "\n"
	if v.out != nil {
		v.out.WriteString(s)
	} else {
		fmt.Print(s)
	}
}

func (v *vrf) fail(f string, a ...interface{}) {
	v.mu.Lock()
	defer v.mu.Unlock()
	v.fails++
	if v.fails <= 20 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		v.line("FAIL %s", s)
	}
}

// N scales a number of cases with the tier.
func (v *vrf) N(n int) int {
	if v.thorough {
		return n * 8
	}
	return n
}

// run executes one case; a panic in it is a failure.
func (v *vrf) run(kind, desc string, f func()) {
	v.mu.Lock()
	v.kinds[kind]++
	v.mu.Unlock()
	v.line("BEGIN %s: %s", kind, desc)
	defer func() {
		if r := recover(); r != nil {
			v.fail("%s: %s: panic: %v %s", kind, desc, r, vrfStack())
		}
	}()
	f()
}

func vrfStack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/repo/") && !strings.Contains(l, "zz_verif") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 4 {
		out = out[:4]
	}
	return strings.Join(out, " < ")
}

func vrfClip(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%q...(%d bytes)", b[:80], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// ---- downstream recorder

type vrfWriter struct {
	mu     sync.Mutex
	h      http.Header
	whs    []int
	snap   http.Header
	body   bytes.Buffer
	writes int
	err    error // of every write of a body
}

func newVrfWriter() *vrfWriter { return &vrfWriter{h: http.Header{}} }

func (w *vrfWriter) Header() http.Header { return w.h }
func (w *vrfWriter) WriteHeader(c int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.whs = append(w.whs, c)
	if w.snap == nil {
		w.snap = w.h.Clone()
	}
}
func (w *vrfWriter) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.whs) == 0 {
		w.whs = append(w.whs, 200)
		w.snap = w.h.Clone()
	}
	w.writes++
	w.body.Write(b)
	if w.err != nil {
		return 0, w.err // as for a HEAD request, or when the client is gone
	}
	return len(b), nil
}
func (w *vrfWriter) status() int {
	if len(w.whs) == 0 {
		return 0
	}
	return w.whs[0]
}

// ---- scripted upstream

type vrfUp struct {
	status    int
	header    http.Header
	body      []byte
	bodyErr   bool // body breaks off after body
	connErr   bool
	delay     time.Duration // before headers
	bodyWait  time.Duration // before the body
	nilBody   bool
	ignoreCtx bool // answers after the attempt was cancelled
}

func (u vrfUp) String() string {
	switch {
	case u.connErr && u.delay > 0:
		return fmt.Sprintf("connection error after %v", u.delay)
	case u.connErr:
		return "connection error"
	}
	s := fmt.Sprintf("%d %v body %s", u.status, map[string][]string(u.header), vrfClip(u.body))
	if u.bodyErr {
		s += " then broken"
	}
	if u.delay > 0 {
		s += fmt.Sprintf(" headers after %v", u.delay)
	}
	if u.bodyWait > 0 {
		s += fmt.Sprintf(" body after %v", u.bodyWait)
	}
	return s
}

type vrfUpReq struct {
	method string
	url    string
	u      *url.URL
	host   string
	header http.Header
	body   []byte
	at     time.Time
	ctx    <-chan struct{}
}

type vrfBody struct {
	r    io.Reader
	fail bool
	wait time.Duration
	ctx  <-chan struct{}
	ign  bool
	once bool
}

func (b *vrfBody) Read(p []byte) (int, error) {
	if !b.once {
		b.once = true
		if b.wait > 0 {
			if b.ign {
				time.Sleep(b.wait)
			} else {
				select {
				case <-time.After(b.wait):
				case <-b.ctx:
					return 0, errors.New("context canceled")
				}
			}
		}
	}
	n, err := b.r.Read(p)
	if err == io.EOF && b.fail {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}
func (b *vrfBody) Close() error { return nil }

type vrfClient struct {
	mu      sync.Mutex
	scripts map[string][]vrfUp // by upstream host
	all     []vrfUp            // for any other host
	reqs    map[string][]*vrfUpReq
	every   []*vrfUpReq
}

func newVrfClient() *vrfClient {
	return &vrfClient{scripts: map[string][]vrfUp{}, reqs: map[string][]*vrfUpReq{}}
}

func (c *vrfClient) Get(uri string) (*http.Response, error) {
	return nil, errors.New("not used")
}

func (c *vrfClient) Do(r *http.Request) (*http.Response, error) {
	rec := &vrfUpReq{method: r.Method, url: r.URL.String(), u: r.URL, host: r.Host, header: r.Header.Clone(), at: time.Now(), ctx: r.Context().Done()}
	if r.Body != nil {
		rec.body, _ = io.ReadAll(r.Body)
	}
	c.mu.Lock()
	k := r.URL.Host
	n := len(c.reqs[k])
	c.reqs[k] = append(c.reqs[k], rec)
	c.every = append(c.every, rec)
	sc := c.scripts[k]
	if sc == nil {
		sc = c.all
	}
	c.mu.Unlock()
	if len(sc) == 0 {
		return nil, errors.New("no such upstream")
	}
	if n >= len(sc) {
		n = len(sc) - 1
	}
	u := sc[n]
	if u.delay > 0 {
		if u.ignoreCtx {
			time.Sleep(u.delay)
		} else {
			select {
			case <-time.After(u.delay):
			case <-rec.ctx:
				return nil, errors.New("context canceled")
			}
		}
	}
	if u.connErr {
		return nil, errors.New("connection refused")
	}
	h := http.Header{}
	for k, v := range u.header {
		h[k] = append([]string{}, v...)
	}
	res := &http.Response{StatusCode: u.status, Status: fmt.Sprint(u.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Request: r}
	res.Body = &vrfBody{r: bytes.NewReader(u.body), fail: u.bodyErr, wait: u.bodyWait, ctx: rec.ctx, ign: u.ignoreCtx}
	res.ContentLength = int64(len(u.body))
	return res, nil
}

// ---- a request served by the real handler

type vrfReq struct {
	about   bool // sent to the about page's handler
	method  string
	uri     string
	header  http.Header
	body    []byte
	chunked bool
	cutoff  bool // the client breaks off while sending
	h2      bool // length unknown, no Transfer-Encoding
	gone    bool // writing the response body fails
}

func (r vrfReq) String() string {
	return fmt.Sprintf("%s %s %v body %s chunked=%v cutoff=%v unknown length=%v client gone=%v", r.method, r.uri, map[string][]string(r.header), vrfClip(r.body), r.chunked, r.cutoff, r.h2, r.gone)
}

func (r vrfReq) build() (*http.Request, error) {
	u, err := url.ParseRequestURI(r.uri)
	if err != nil {
		return nil, err
	}
	req := &http.Request{Method: r.method, URL: u, RequestURI: r.uri, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "proxy.example", RemoteAddr: "10.1.2.3:4567"}
	for k, v := range r.header {
		req.Header[k] = append([]string{}, v...)
	}
	req.Body = &vrfBody{r: bytes.NewReader(r.body), fail: r.cutoff}
	req.ContentLength = int64(len(r.body))
	if r.cutoff {
		req.ContentLength += 10
	}
	if r.h2 {
		req.ContentLength = -1
		req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/2.0", 2, 0
	} else if r.chunked {
		req.ContentLength = -1
		req.TransferEncoding = []string{"chunked"}
	} else if len(r.body) == 0 && !r.cutoff {
		req.Body = http.NoBody
	}
	return req, nil
}

type vrfTrace struct {
	w     *vrfWriter
	ups   []*vrfUpReq
	panic string
	took  time.Duration
}

func (t *vrfTrace) String() string {
	s := fmt.Sprintf("-> status lines %v, %d writes, header %v, body %s; upstream requests:", t.w.whs, t.w.writes, map[string][]string(t.w.snap), vrfClip(t.w.body.Bytes()))
	for _, u := range t.ups {
		s += fmt.Sprintf(" [%s %s %v %s]", u.method, u.url, map[string][]string(u.header), vrfClip(u.body))
	}
	return s
}

// serve lets the real handler answer one request with the scripted upstream.
func vrfServe(r vrfReq, c *vrfClient, host string) *vrfTrace {
	w := newVrfWriter()
	tr := &vrfTrace{w: w}
	req, err := r.build()
	if err != nil {
		tr.panic = "unbuildable: " + err.Error()
		return tr
	}
	if r.gone {
		w.err = errors.New("connection reset by peer")
	} else if req.Method == "HEAD" {
		w.err = http.ErrBodyNotAllowed
	}
	t0 := time.Now()
	func() {
		defer func() {
			if e := recover(); e != nil {
				tr.panic = fmt.Sprintf("%v %s", e, vrfStack())
			}
		}()
		if r.about {
			aboutHandler(w, req)
		} else {
			proxyHandler(w, req)
		}
	}()
	tr.took = time.Since(t0)
	c.mu.Lock()
	if host == "" {
		tr.ups = append(tr.ups, c.every...)
	} else {
		tr.ups = append(tr.ups, c.reqs[host]...)
	}
	c.mu.Unlock()
	return tr
}

// vrfBoot takes a configuration through the same steps as the server.
func vrfBoot(c *Config) {
	cfg := c.reApplyResourceSchemes().reApplyResourceNames().validateRoutes().compileRoutePaths().compileRouteTransforms().
		addDefaultPolicy().setDefaultUpstreamParams().setDefaultDownstreamParams()
	Runner = &Runtime{Config: *cfg, Start: time.Now()}
}

func vrfConfig(attempts int, maxBody int64) *Config {
	c := &Config{Resources: map[string][]ResourceMapping{}, Policies: map[string]Policy{}, Jwt: map[string]*Jwt{}}
	c.Routes = Routes{{Path: "/", Resource: "main"}}
	c.Resources["main"] = []ResourceMapping{{Name: "main", URL: URL{Scheme: "http", Host: "up.example", Port: 8081}}}
	c.Connection.Upstream.MaxAttempts = attempts
	c.Connection.Upstream.ReadTimeoutSeconds = 20
	c.Connection.Downstream.RoundTripTimeoutSeconds = 60
	c.Connection.Downstream.MaxBodyBytes = maxBody
	return c
}

const vrfHost = "up.example:8081"

// ---- random ingredients

func (v *vrf) pick(s ...string) string { return s[v.rnd.Intn(len(s))] }

func (v *vrf) bytes(n int) []byte {
	b := make([]byte, n)
	v.rnd.Read(b)
	return b
}

var vrfMethods = []string{"GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE", "POST", "CONNECT"}

func (v *vrf) headerName() string {
	return v.pick("X-A", "X-B", "Accept", "Cookie", "Set-Cookie", "Via", "X-Forwarded-For", "Cache-Control", "Location", "Etag", "Vary", "Expires", "Last-Modified", "Age", "Dated", "X-Server", "Content-Type", "X-Date", "Content-Lengthy", "Te", "Upgrade")
}

func (v *vrf) headers(n int) http.Header {
	h := http.Header{}
	for i := 0; i < n; i++ {
		k := v.headerName()
		for j := 0; j <= v.rnd.Intn(3); j++ {
			h[k] = append(h[k], v.pick("a", "b", "c", "", "x y", "1", "gzip", "text/plain", "é"))
		}
	}
	if v.rnd.Intn(3) == 0 {
		k := v.pick("Date", "date", "DATE", "Content-Length", "content-length", "CONTENT-LENGTH", "Transfer-Encoding", "transfer-encoding", "TRANSFER-encoding", "Server", "server", "SERVER")
		h[k] = []string{v.pick("hop", "5", "chunked")}
	}
	return h
}

func (v *vrf) outcome() vrfUp {
	u := vrfUp{header: v.headers(v.rnd.Intn(4))}
	switch v.rnd.Intn(8) {
	case 0:
		u.connErr = true
		return u
	case 1:
		u.bodyErr = true
	}
	st := []int{200, 200, 200, 201, 204, 206, 301, 304, 307, 400, 401, 403, 404, 418, 429, 499, 500, 501, 502, 503, 504, 505, 520, 599, 399, 299}
	u.status = st[v.rnd.Intn(len(st))]
	if v.rnd.Intn(3) == 0 {
		u.status = 200 + v.rnd.Intn(400)
	}
	switch v.rnd.Intn(6) {
	case 0:
	case 1:
		u.body = v.bytes(1)
	case 2:
		u.body = vrfZip([]byte("the quick brown fox jumps over the lazy dog"))
		u.header["Content-Encoding"] = []string{"gzip"}
	case 3:
		u.body = v.bytes(v.rnd.Intn(5000))
	case 4:
		u.body = v.bytes(1 + v.rnd.Intn(40))
		if u.body[0] == 0x1f {
			u.body[0] = 0
		}
		u.header["Content-Encoding"] = [][]string{{"br"}, {"gzip", "br"}, {"br", "gzip"}, {"identity", "zstd"}, {"deflate"}, {"", "br"}, {"BR"}}[v.rnd.Intn(7)]
	default:
		u.body = []byte(v.pick("hello", "{}", "0123456789", "a longer text that compresses compresses compresses compresses well"))
	}
	return u
}

func (v *vrf) script() []vrfUp {
	var s []vrfUp
	for i := 0; i <= v.rnd.Intn(5); i++ {
		s = append(s, v.outcome())
	}
	return s
}

func (v *vrf) request(max int) vrfReq {
	r := vrfReq{method: vrfMethods[v.rnd.Intn(len(vrfMethods))], header: v.headers(v.rnd.Intn(4))}
	r.uri = v.pick("/", "/a", "/a/b?c=d", "/x%20y?q=%2F", "/about", "/a/../b", "/?x")
	if v.rnd.Intn(2) == 0 {
		r.header["Accept-Encoding"] = []string{v.pick("gzip", "gzip, deflate", "deflate", "identity", "br;q=1.0, gzip;q=0.8")}
	}
	if v.rnd.Intn(3) == 0 {
		r.header["X-Request-Id"] = []string{v.pick("abc", "1", "XR-test-9", "a,b", " x ", "UPPER", "é", "a/b?c#d", strings.Repeat("0123456789abcdef", 9), strings.Repeat("x", 600), "00-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-01")}
	}
	if v.rnd.Intn(3) == 0 {
		r.method = v.pick("POST", "PUT", "DELETE", "PATCH", "get", "FOO", "post")
	}
	switch v.rnd.Intn(6) {
	case 0:
		r.body = v.bytes(max)
	case 1:
		r.body = v.bytes(max + 1)
	case 2:
		r.body = v.bytes(v.rnd.Intn(max))
	case 3:
		r.body = []byte("body")
	}
	r.chunked = v.rnd.Intn(2) == 0 && len(r.body) > 0
	r.cutoff = len(r.body) > 0 && v.rnd.Intn(8) == 0
	r.h2 = !r.chunked && !r.cutoff && v.rnd.Intn(4) == 0
	r.gone = v.rnd.Intn(6) == 0
	return r
}

var vrfRepeatable = map[string]bool{"GET": true, "HEAD": true, "OPTIONS": true, "TRACE": true, "PUT": true, "DELETE": true}
var vrfLegal = map[string]bool{"GET": true, "HEAD": true, "OPTIONS": true, "TRACE": true, "PUT": true, "DELETE": true, "POST": true, "CONNECT": true}

type vrfCase struct {
	req      vrfReq
	script   []vrfUp
	attempts int
	max      int
	tls      bool
	cfg      *Config
	tr       *vrfTrace
	host     string
	readSecs int
	rtSecs   int
}

func (c *vrfCase) String() string {
	return fmt.Sprintf("request %v; upstream %v; attempts %d maxBody %d %s", c.req, c.script, c.attempts, c.max, c.tr)
}

// expected outcome of the attempts: index of the attempt that is proxied, or -1.
func (c *vrfCase) attemptsExpected() (n int, proxied int) {
	m := strings.ToUpper(c.req.method)
	for i := 0; ; i++ {
		k := i
		if k >= len(c.script) {
			k = len(c.script) - 1
		}
		u := c.script[k]
		if !u.connErr && !u.bodyErr && u.status >= 100 && u.status < 500 {
			return i + 1, k
		}
		if !vrfRepeatable[m] || i+1 >= c.attempts {
			return i + 1, -1
		}
	}
}

func (c *vrfCase) rejected() int {
	if !vrfLegal[strings.ToUpper(c.req.method)] {
		if c.tooLarge() {
			return 413
		}
		return 400
	}
	if c.tooLarge() {
		return 413
	}
	if c.req.cutoff {
		return 400
	}
	return 0
}

func (c *vrfCase) tooLarge() bool {
	n := len(c.req.body)
	if c.req.cutoff && !c.req.chunked {
		n += 10 // announced
	}
	return n > c.max
}

// vrfE2E runs random and directed end to end cases and judges each trace.
func vrfE2E(v *vrf, n int, judge func(c *vrfCase) string) {
	for i := 0; i < n; i++ {
		c := &vrfCase{attempts: 1 + v.rnd.Intn(4), max: 64}
		c.req = v.request(c.max)
		c.script = v.script()
		if i < len(vrfDirected) {
			d := vrfDirected[i]
			c.req, c.script, c.attempts = d.req, d.script, d.attempts
			if c.req.header == nil {
				c.req.header = http.Header{}
			}
		}
		vrfOne(v, "end-to-end", c, judge)
	}
}

// vrfAbout judges answers of the about page.
func vrfAbout(v *vrf, n int, judge func(c *vrfCase) string) {
	for i := 0; i < n; i++ {
		c := &vrfCase{attempts: 1, max: 64, req: v.request(64), script: v.script()}
		c.req.about = true
		vrfOne(v, "about page", c, judge)
	}
}

func vrfOne(v *vrf, kind string, c *vrfCase, judge func(c *vrfCase) string) {
	v.run(kind, fmt.Sprintf("request %v; upstream %v; attempts %d", c.req, c.script, c.attempts), func() {
		cfg := c.cfg
		if cfg == nil {
			cfg = vrfConfig(c.attempts, int64(c.max))
		}
		if c.tls {
			cfg.Connection.Downstream.Mode = "TLS"
		}
		vrfBoot(cfg)
		cl := newVrfClient()
		cl.all = c.script
		httpClient = cl
		done := make(chan bool)
		go func() {
			c.tr = vrfServe(c.req, cl, "")
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(15 * time.Second):
			v.fail("%v: no answer within 15 s", c.req)
			return
		}
		if strings.HasPrefix(c.tr.panic, "unbuildable") {
			return
		}
		if c.tr.panic != "" {
			v.fail("%s: panic: %s", c, c.tr.panic)
			return
		}
		if m := judge(c); m != "" {
			v.fail("%s: %s", m, c)
		}
	})
}

// vrfTiming marks a verdict that depends on the machine keeping up.
const vrfTiming = "timing: "

// vrfTimed runs cases that need real time side by side. Read timeout 1 s, round trip timeout as given. A verdict that
// depends on the machine keeping up counts when it is given three times.
func vrfTimed(v *vrf, kind string, rtSecs int, attempts int, cases []*vrfCase, judge func(c *vrfCase) string) {
	for round := 1; len(cases) > 0; round++ {
		var again []*vrfCase
		for c, m := range vrfTimedRound(v, kind, rtSecs, attempts, cases, judge) {
			if strings.HasPrefix(m, vrfTiming) && round < 3 {
				again = append(again, c)
				continue
			}
			m = strings.TrimPrefix(m, vrfTiming)
			if c.tr == nil {
				v.fail("%s: %s: request %v; upstream %v", kind, m, c.req, c.script)
			} else {
				v.fail("%s: %s (took %v)", m, c, c.tr.took)
			}
		}
		cases = again
	}
}

// vrfOffset lets every request start with a refused connection after half a second, so that no later moment falls
// on the end of the round trip.
func vrfOffset(cases []*vrfCase) []*vrfCase {
	for _, c := range cases {
		c.script = append([]vrfUp{{connErr: true, delay: 500 * time.Millisecond}}, c.script...)
	}
	return cases
}

func vrfTimedRound(v *vrf, kind string, rtSecs int, attempts int, cases []*vrfCase, judge func(c *vrfCase) string) map[*vrfCase]string {
	cfg := vrfConfig(attempts, 64)
	cfg.Connection.Upstream.ReadTimeoutSeconds = 1
	cfg.Connection.Downstream.RoundTripTimeoutSeconds = rtSecs
	cl := newVrfClient()
	for i, c := range cases {
		n := fmt.Sprintf("c%d", i)
		cfg.Routes = append(cfg.Routes, Route{Path: "/" + n + "/", Resource: n})
		cfg.Resources[n] = []ResourceMapping{{URL: URL{Scheme: "http", Host: n + ".example", Port: 80}}}
		c.tr = nil
		c.host = n + ".example:80"
		c.req.uri = "/" + n + "/x"
		if c.req.header == nil {
			c.req.header = http.Header{}
		}
		c.attempts, c.max, c.readSecs, c.rtSecs = attempts, 64, 1, rtSecs
		cl.scripts[c.host] = c.script
	}
	vrfBoot(cfg)
	httpClient = cl
	var wg sync.WaitGroup
	for _, c := range cases {
		c := c
		wg.Add(1)
		v.mu.Lock()
		v.kinds[kind]++
		v.line("BEGIN %s: request %v; upstream %v", kind, c.req, c.script)
		v.mu.Unlock()
		go func() {
			defer wg.Done()
			done := make(chan bool)
			var tr *vrfTrace
			go func() { tr = vrfServe(c.req, cl, c.host); close(done) }()
			select {
			case <-done:
				c.tr = tr
			case <-time.After(time.Duration(rtSecs+attempts+10) * time.Second):
			}
		}()
	}
	wg.Wait()
	// late answers may still arrive; the response must stay as it is
	time.Sleep(300 * time.Millisecond)
	bad := map[*vrfCase]string{}
	for _, c := range cases {
		if c.tr == nil {
			bad[c] = vrfTiming + "no answer in time"
		} else if c.tr.panic != "" {
			bad[c] = "panic: " + c.tr.panic
		} else if m := judge(c); m != "" {
			bad[c] = m
		}
	}
	return bad
}

// vrfRaces are cases with slow upstreams: the outcome depends on timing.
func vrfSlowCases() []*vrfCase {
	ok := func(b string) vrfUp { return vrfUp{status: 200, header: http.Header{}, body: []byte(b)} }
	hang := func() vrfUp {
		return vrfUp{status: 200, header: http.Header{}, body: []byte("late"), delay: 30 * time.Second}
	}
	lateBy := func(d time.Duration, st int, b string) vrfUp {
		return vrfUp{status: st, header: http.Header{}, body: []byte(b), delay: d, ignoreCtx: true}
	}
	bodyHang := func() vrfUp {
		return vrfUp{status: 200, header: http.Header{}, body: []byte("late"), bodyWait: 30 * time.Second}
	}
	bodyLate := func(d time.Duration, b string) vrfUp {
		return vrfUp{status: 201, header: http.Header{}, body: []byte(b), bodyWait: d, ignoreCtx: true}
	}
	slowOK := func(d time.Duration, b string) vrfUp {
		return vrfUp{status: 200, header: http.Header{}, body: []byte(b), delay: d}
	}
	g := func(m string, s ...vrfUp) *vrfCase {
		return &vrfCase{req: vrfReq{method: m, header: http.Header{}}, script: s}
	}
	return []*vrfCase{
		g("GET", hang()),
		g("GET", hang(), ok("second")),
		g("GET", bodyHang(), ok("second")),
		g("GET", bodyHang()),
		g("POST", hang(), ok("second")),
		g("POST", bodyHang(), ok("second")),
		g("GET", lateBy(1300*time.Millisecond, 404, "late"), slowOK(600*time.Millisecond, "second")),
		g("GET", lateBy(1300*time.Millisecond, 200, "late"), lateBy(1200*time.Millisecond, 200, "late2"), ok("third")),
		g("GET", bodyLate(1300*time.Millisecond, "late body"), slowOK(600*time.Millisecond, "second")),
		g("GET", bodyLate(1300*time.Millisecond, string(vrfZip([]byte("late gzip")))), slowOK(700*time.Millisecond, "plain")),
		g("GET", vrfUp{connErr: true}, hang(), ok("third")),
		g("PUT", hang(), vrfUp{status: 503, header: http.Header{}}, ok("third")),
		g("GET", vrfUp{connErr: true, delay: 300 * time.Millisecond}, ok("second")),
		g("HEAD", hang(), ok("")),
		g("DELETE", bodyHang(), bodyHang(), ok("third")),
	}
}

var vrfDirected = []vrfCase{
	{req: vrfReq{method: "GET", uri: "/"}, script: []vrfUp{{status: 200, body: []byte("ok")}}, attempts: 1},
	{req: vrfReq{method: "HEAD", uri: "/"}, script: []vrfUp{{status: 200, header: http.Header{"Content-Length": {"7"}}}}, attempts: 1},
	{req: vrfReq{method: "HEAD", uri: "/"}, script: []vrfUp{{status: 200}}, attempts: 1},
	{req: vrfReq{method: "HEAD", uri: "/"}, script: []vrfUp{{status: 404}}, attempts: 2},
	{req: vrfReq{method: "GET", uri: "/"}, script: []vrfUp{{status: 204}}, attempts: 1},
	{req: vrfReq{method: "GET", uri: "/"}, script: []vrfUp{{connErr: true}}, attempts: 4},
	{req: vrfReq{method: "POST", uri: "/", body: []byte("x")}, script: []vrfUp{{connErr: true}}, attempts: 4},
	{req: vrfReq{method: "PUT", uri: "/", body: []byte("abc")}, script: []vrfUp{{status: 500}, {connErr: true}, {status: 201}}, attempts: 4},
	{req: vrfReq{method: "PUT", uri: "/", body: []byte("abc")}, script: []vrfUp{{status: 200, bodyErr: true}, {connErr: true}, {status: 201}}, attempts: 3},
	{req: vrfReq{method: "GET", uri: "/"}, script: []vrfUp{{status: 0}}, attempts: 1},
	{req: vrfReq{method: "GET", uri: "/"}, script: []vrfUp{{status: 99}, {status: 200, body: []byte("ok")}}, attempts: 2},
	{req: vrfReq{method: "GET", uri: "/"}, script: []vrfUp{{status: 499, body: []byte("x")}}, attempts: 2},
	{req: vrfReq{method: "GET", uri: "/"}, script: []vrfUp{{status: 500, body: []byte("x")}}, attempts: 2},
	{req: vrfReq{method: "GET", uri: "/", header: http.Header{"Accept-Encoding": {"gzip"}}}, script: []vrfUp{{status: 200, header: http.Header{"Content-Encoding": {"br"}}, body: []byte("brbrbr")}}, attempts: 1},
	{req: vrfReq{method: "GET", uri: "/", header: http.Header{}}, script: []vrfUp{{status: 200, header: http.Header{"Content-Encoding": {"br"}}, body: []byte("brbrbr")}}, attempts: 1},
	{req: vrfReq{method: "GET", uri: "/", header: http.Header{}}, script: []vrfUp{{status: 200, header: http.Header{"Content-Encoding": {"gzip"}}, body: vrfZip([]byte("zipped"))}}, attempts: 1},
	{req: vrfReq{method: "GET", uri: "/", header: http.Header{"Accept-Encoding": {"gzip"}}}, script: []vrfUp{{status: 200, header: http.Header{"Content-Encoding": {"gzip"}}, body: vrfZip([]byte("zipped"))}}, attempts: 1},
	{req: vrfReq{method: "GET", uri: "/", header: http.Header{"Accept-Encoding": {"gzip"}}}, script: []vrfUp{{status: 200, header: http.Header{"Content-Encoding": {"identity"}}, body: []byte("plain plain plain")}}, attempts: 1},
	{req: vrfReq{method: "CONNECT", uri: "/"}, script: []vrfUp{{status: 200, body: []byte("x")}}, attempts: 1},
	{req: vrfReq{method: "PATCH", uri: "/"}, script: []vrfUp{{status: 200, body: []byte("x")}}, attempts: 1},
	{req: vrfReq{method: "get", uri: "/"}, script: []vrfUp{{status: 200, body: []byte("x")}}, attempts: 1},
	{req: vrfReq{method: "POST", uri: "/", body: make([]byte, 64)}, script: []vrfUp{{status: 200}}, attempts: 1},
	{req: vrfReq{method: "POST", uri: "/", body: make([]byte, 65)}, script: []vrfUp{{status: 200}}, attempts: 1},
	{req: vrfReq{method: "POST", uri: "/", body: make([]byte, 64), chunked: true}, script: []vrfUp{{status: 200}}, attempts: 1},
	{req: vrfReq{method: "POST", uri: "/", body: make([]byte, 65), chunked: true}, script: []vrfUp{{status: 200}}, attempts: 1},
	{req: vrfReq{method: "PUT", uri: "/", body: []byte("abcdef"), cutoff: true}, script: []vrfUp{{status: 200}}, attempts: 3},
	{req: vrfReq{method: "PUT", uri: "/", body: []byte("abcdef"), chunked: true, cutoff: true}, script: []vrfUp{{status: 200}}, attempts: 3},
	{req: vrfReq{method: "GET", uri: "/", header: http.Header{"X-Request-Id": {"one", "two"}}}, script: []vrfUp{{connErr: true}, {status: 200}}, attempts: 3},
	{req: vrfReq{method: "GET", uri: "/", header: http.Header{"X-A": {"1", "2", "3"}, "Cookie": {"a=b", "c=d"}}}, script: []vrfUp{{status: 200, header: http.Header{"Set-Cookie": {"a", "b", "c"}, "Server": {"x"}, "DATE": {"x"}}}}, attempts: 3},
	{req: vrfReq{method: "GET", uri: "/"}, script: []vrfUp{{status: 403, header: http.Header{"Set-Cookie": {"a"}, "X-Secret": {"x"}}, body: []byte("secret")}}, attempts: 3},
	{req: vrfReq{method: "GET", uri: "/"}, script: []vrfUp{{status: 200, body: []byte{0x1f, 0x8b}}}, attempts: 1},
	{req: vrfReq{method: "GET", uri: "/"}, script: []vrfUp{{status: 200, body: []byte{0x1f}}}, attempts: 1},
}

func vrfZip(b []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	w.Write(b)
	w.Close()
	return buf.Bytes()
}

// vrfUnzip decompresses; ok is false if b is not complete gzip data.
func vrfUnzip(b []byte) ([]byte, bool) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, false
	}
	d, err := io.ReadAll(r)
	return d, err == nil
}

// TestVrfBootChild is the process that boots with the configuration it is given.
func TestVrfBootChild(t *testing.T) {
	if os.Getenv("VRF_BOOT") == "" {
		t.Skip()
	}
	ConfigFile = os.Getenv("VRF_FILE")
	Boot.Add(1)
	go BootStrap()
	Boot.Wait()
	var pol []string
	for k := range Runner.Policies {
		pol = append(pol, k)
	}
	b, _ := json.Marshal(map[string]interface{}{"policies": pol, "routes": len(Runner.Routes)})
	os.Stdout.Write([]byte("\nVRFBOOTED " + string(b) + "\n"))
	if os.Getenv("VRF_HOLD") != "" {
		time.Sleep(60 * time.Second)
	}
	os.Exit(0)
}

// vrfChild is a process that boots the server in a directory of its own.
func vrfChild(ctx context.Context, dir string, env ...string) *exec.Cmd {
	cmd := exec.CommandContext(ctx, os.Args[0], "-test.run", "^TestVrfBootChild$")
	cmd.Dir = dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, J8ACFG_YML+"=") && !strings.HasPrefix(e, "LOG") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(append(cmd.Env, "VRF_BOOT=1"), env...)
	return cmd
}

var (
	vrfPorts   = map[int]bool{}
	vrfPortsMu sync.Mutex
)

// vrfPort is a port nothing listens on, never given out before and outside the range the kernel takes
// for outgoing connections.
func vrfPort() int {
	vrfPortsMu.Lock()
	defer vrfPortsMu.Unlock()
	for n := 0; n < 1000; n++ {
		i, err := crand.Int(crand.Reader, big.NewInt(20000))
		if err != nil {
			return 0
		}
		p := 12000 + int(i.Int64())
		if vrfPorts[p] {
			continue
		}
		vrfPorts[p] = true
		if l, err := net.Listen("tcp", fmt.Sprintf(":%d", p)); err == nil {
			l.Close()
			return p
		}
	}
	return 0
}

// vrfForeign says that the socket listening on the port is known not to be the process's.
func vrfForeign(pid, port int) bool {
	inodes := map[string]bool{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) > 9 && w[3] == "0A" && strings.HasSuffix(w[1], fmt.Sprintf(":%04X", port)) {
				inodes["socket:["+w[9]+"]"] = true
			}
		}
	}
	d := fmt.Sprintf("/proc/%d/fd", pid)
	fs, err := os.ReadDir(d)
	if err != nil || len(inodes) == 0 {
		// gone meanwhile: nobody of ours listens
		return true
	}
	for _, f := range fs {
		if l, err := os.Readlink(d + "/" + f.Name()); err == nil && inodes[l] {
			return false
		}
	}
	return true
}

func vrfCert(cn string, ca bool, parent *x509.Certificate, pk *ecdsa.PrivateKey, from, to time.Time, serial *big.Int, dns ...string) (*x509.Certificate, *ecdsa.PrivateKey, []byte) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	tpl := &x509.Certificate{SerialNumber: serial, Subject: pkix.Name{CommonName: cn}, NotBefore: from, NotAfter: to, IsCA: ca, BasicConstraintsValid: true, DNSNames: dns,
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	if ca {
		tpl.KeyUsage = x509.KeyUsageCertSign
		tpl.ExtKeyUsage = nil
	}
	if parent == nil {
		parent, pk = tpl, k
	}
	b, err := x509.CreateCertificate(crand.Reader, tpl, parent, &k.PublicKey, pk)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(b)
	return c, k, b
}
