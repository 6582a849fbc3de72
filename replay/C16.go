package j8a

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"
)

// vrfDialer is the dialer whose DialContext method f is, nil if it is something else.
func vrfDialer(f func(context.Context, string, string) (net.Conn, error)) *net.Dialer {
	if f == nil {
		return nil
	}
	fn := runtime.FuncForPC(reflect.ValueOf(f).Pointer())
	if fn == nil || !strings.Contains(fn.Name(), "net.(*Dialer).DialContext") {
		return nil
	}
	type bound struct {
		fn uintptr
		d  *net.Dialer
	}
	return (*(**bound)(unsafe.Pointer(&f))).d
}

func TestVerifC16(t *testing.T) {
	vrfRun(t, "C16", func(v *vrf) {
		// the upstream side
		for i := 0; i < v.N(200); i++ {
			c := vrfConfig(1, 1000)
			u := &c.Connection.Upstream
			u.SocketTimeoutSeconds, u.ReadTimeoutSeconds, u.IdleTimeoutSeconds, u.PoolSize = 1+v.rnd.Intn(50), 51+v.rnd.Intn(50), 101+v.rnd.Intn(50), 151+v.rnd.Intn(50)
			u.TlsInsecureSkipVerify = v.rnd.Intn(2) == 0
			if i%2 == 0 {
				u.SocketTimeoutSeconds, u.IdleTimeoutSeconds, u.PoolSize = u.PoolSize, u.SocketTimeoutSeconds, u.IdleTimeoutSeconds
			}
			desc := fmt.Sprintf("%+v", *u)
			v.run("upstream parameters", desc, func() {
				saved := httpClient
				defer func() { httpClient = saved }()
				httpClient = nil
				vrfBoot(c)
				httpClient = nil
				Runner.initUserAgent()
				hc, ok := httpClient.(*http.Client)
				if !ok {
					return
				}
				if hc.Timeout != 0 && hc.Timeout < time.Duration(u.ReadTimeoutSeconds)*time.Second {
					v.fail("%s: requests are limited to %v", desc, hc.Timeout)
				}
				tr, ok := hc.Transport.(*http.Transport)
				if !ok {
					return
				}
				is := func(what string, got, want interface{}) {
					if got != want {
						v.fail("%s: %s is %v, configured %v", desc, what, got, want)
					}
				}
				s := func(n int) time.Duration { return time.Duration(n) * time.Second }
				is("TLS handshake timeout", tr.TLSHandshakeTimeout, s(u.SocketTimeoutSeconds))
				is("idle timeout", tr.IdleConnTimeout, s(u.IdleTimeoutSeconds))
				is("pool size", tr.MaxIdleConns, u.PoolSize)
				is("pool size per host", tr.MaxIdleConnsPerHost, u.PoolSize)
				if d := vrfDialer(tr.DialContext); d != nil {
					is("connect timeout", d.Timeout, s(u.SocketTimeoutSeconds))
				}
			})
		}
		// every attempt has all of its time
		slow := func(d int) vrfUp {
			return vrfUp{status: 200, header: http.Header{}, body: []byte("x"), delay: time.Duration(d) * time.Millisecond}
		}
		refused, hang1 := vrfUp{connErr: true}, vrfUp{status: 200, header: http.Header{}, body: []byte("late"), delay: 30 * time.Second}
		var cases []*vrfCase
		for _, sc := range [][]vrfUp{{slow(600)}, {refused, slow(600)}, {refused, refused, slow(600)}, {hang1, slow(600)}, {hang1, hang1, slow(600)}, {refused, hang1, slow(600)}, {slow(1500), refused, slow(600)}, {refused, slow(1500), slow(1500)}} {
			cases = append(cases, &vrfCase{req: vrfReq{method: "GET", header: http.Header{}}, script: sc})
		}
		vrfTimed(v, "attempts", 30, 3, cases, judgeSlow)
		// the read timeout of an attempt
		var wg sync.WaitGroup
		hang := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			io.Copy(io.Discard, r.Body)
			select {
			case <-r.Context().Done():
			case <-time.After(20 * time.Second):
			}
		}))
		defer hang.CloseClientConnections()
		quick := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			io.Copy(io.Discard, r.Body)
			fmt.Fprint(w, "ok")
		}))
		defer quick.Close()
		dir, err := os.MkdirTemp("", "vrfc16")
		if err != nil {
			v.fail("no scratch directory: %v", err)
			return
		}
		defer os.RemoveAll(dir)
		addr := func(s *httptest.Server) (string, int) {
			a := s.Listener.Addr().(*net.TCPAddr)
			return "127.0.0.1", a.Port
		}
		type m = map[string]interface{}
		// read, idle, round trip, upstream read
		for i, p := range [][4]int{{1, 5, 9, 5}, {5, 1, 9, 9}, {5, 9, 1, 9}, {9, 5, 5, 1}} {
			i, p := i, p
			wg.Add(1)
			go func() {
				defer wg.Done()
				port := vrfPort()
				hh, hp := addr(hang)
				qh, qp := addr(quick)
				b, _ := json.Marshal(m{
					"routes":    []m{{"path": "/hang", "resource": "hang"}, {"path": "/quick", "resource": "quick"}},
					"resources": m{"hang": []m{{"url": m{"scheme": "http", "host": hh, "port": hp}}}, "quick": []m{{"url": m{"scheme": "http", "host": qh, "port": qp}}}},
					"connection": m{"downstream": m{"port": port, "readTimeoutSeconds": p[0], "idleTimeoutSeconds": p[1], "roundTripTimeoutSeconds": p[2]},
						"upstream": m{"readTimeoutSeconds": p[3], "maxAttempts": 1}}})
				desc := fmt.Sprintf("read %ds idle %ds round trip %ds upstream read %ds", p[0], p[1], p[2], p[3])
				v.run("timeouts", desc, func() {
					ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
					defer cancel()
					d := fmt.Sprintf("%s/%d", dir, i)
					os.MkdirAll(d, 0755)
					cmd := vrfChild(ctx, d, J8ACFG_YML+"="+string(b), "VRF_HOLD=1")
					if cmd.Start() != nil {
						return
					}
					defer cmd.Wait()
					defer cancel()
					dial := func() net.Conn {
						for n := 0; n < 100; n++ {
							if c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
								return c
							}
							time.Sleep(50 * time.Millisecond)
						}
						return nil
					}
					c := dial()
					if c == nil {
						v.line("not listening %s", desc)
						return
					}
					c.Close()
					near := func(what string, t0 time.Time, want int) {
						got := time.Since(t0).Seconds()
						if got < float64(want)-0.3 || got > float64(want)+2.5 {
							v.fail("%s: %s after %.1fs, configured %ds", desc, what, got, want)
						}
					}
					end := func(c net.Conn) { // until the server hangs up
						c.SetReadDeadline(time.Now().Add(14 * time.Second))
						io.Copy(io.Discard, c)
					}
					var in sync.WaitGroup
					do := func(f func(c net.Conn)) {
						in.Add(1)
						go func() {
							defer in.Done()
							if c := dial(); c != nil {
								defer c.Close()
								f(c)
							}
						}()
					}
					do(func(c net.Conn) {
						t0 := time.Now()
						io.WriteString(c, "GET /quick HTTP/1.1\r\nHost: x\r\n")
						end(c)
						near("connection with an incomplete header closed", t0, p[0])
					})
					do(func(c net.Conn) {
						t0 := time.Now()
						io.WriteString(c, "POST /quick HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\nabc")
						c.SetReadDeadline(time.Now().Add(14 * time.Second))
						bufio.NewReader(c).ReadByte()
						if p[0] < p[2] {
							near("request with an incomplete body ended", t0, p[0])
						}
					})
					do(func(c net.Conn) {
						io.WriteString(c, "GET /quick HTTP/1.1\r\nHost: x\r\n\r\n")
						r := bufio.NewReader(c)
						c.SetReadDeadline(time.Now().Add(14 * time.Second))
						res, err := http.ReadResponse(r, nil)
						if err != nil {
							return
						}
						io.Copy(io.Discard, res.Body)
						t0 := time.Now()
						c.SetReadDeadline(time.Now().Add(14 * time.Second))
						io.Copy(io.Discard, r)
						near("idle connection closed", t0, p[1])
					})
					do(func(c net.Conn) {
						t0 := time.Now()
						io.WriteString(c, "GET /hang HTTP/1.1\r\nHost: x\r\n\r\n")
						c.SetReadDeadline(time.Now().Add(14 * time.Second))
						res, err := http.ReadResponse(bufio.NewReader(c), nil)
						want := p[2]
						if p[3] < want {
							want = p[3]
						}
						if err != nil {
							v.fail("%s: a request to an upstream that does not answer gets no response (%v after %.1fs)", desc, err, time.Since(t0).Seconds())
							return
						}
						if res.StatusCode != 502 && res.StatusCode != 504 {
							v.fail("%s: a request to an upstream that does not answer gets %d", desc, res.StatusCode)
						}
						near("request to an upstream that does not answer given up", t0, want)
					})
					in.Wait()
				})
			}()
		}
		wg.Wait()
	})
}
