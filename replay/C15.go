package j8a

import (
	"context"
	"crypto/ecdsa"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"testing"
	"time"
)

func TestVerifC15(t *testing.T) {
	vrfRun(t, "C15", func(v *vrf) {
		now := time.Now()
		day := 24 * time.Hour
		from, to := now.Add(-400*day), now.Add(400*day)
		root, rootK, rootB := vrfCert("Root", true, nil, nil, from, to, big.NewInt(1))
		inter, interK, interB := vrfCert("Inter", true, root, rootK, from, to, big.NewInt(2))
		_, leafK, leafB := vrfCert("leaf", false, inter, interK, from, to, big.NewInt(3), "localhost")
		_, leafRK, leafRB := vrfCert("leaf", false, root, rootK, from, to, big.NewInt(4), "localhost")
		_, oldK, oldB := vrfCert("leaf", false, inter, interK, from, now.Add(-day), big.NewInt(5), "localhost")
		_, soonK, soonB := vrfCert("leaf", false, inter, interK, now.Add(day), to, big.NewInt(6), "localhost")
		_, _, otherB := vrfCert("Other", true, nil, nil, from, to, big.NewInt(7))
		oldI, oldIK, oldIB := vrfCert("OldInter", true, root, rootK, from, now.Add(-day), big.NewInt(8))
		_, leafOK, leafOB := vrfCert("leaf", false, oldI, oldIK, from, to, big.NewInt(9), "localhost")
		_, selfK, selfB := vrfCert("self", false, nil, nil, from, to, big.NewInt(10), "localhost")
		rk, _ := rsa.GenerateKey(crand.Reader, 2048)
		rsaB, _ := x509.CreateCertificate(crand.Reader, &x509.Certificate{SerialNumber: big.NewInt(11), Subject: pkix.Name{CommonName: "leaf"}, NotBefore: from, NotAfter: to, DNSNames: []string{"localhost"},
			KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}, inter, &rk.PublicKey, interK)
		rsaK := string(pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(rk)}))
		certs := func(bs ...[]byte) string {
			var s string
			for _, b := range bs {
				s += string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: b}))
			}
			return s
		}
		key := func(k *ecdsa.PrivateKey) string {
			b, _ := x509.MarshalECPrivateKey(k)
			return string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b}))
		}
		type cse struct {
			what, mode, cert, key string
			ok                    bool
		}
		cases := []cse{
			{"leaf, intermediate and root", "TLS", certs(leafB, interB, rootB), key(leafK), true},
			{"root before the intermediate", "tls", certs(leafB, rootB, interB), key(leafK), true},
			{"leaf and root", "Tls", certs(leafRB, rootB), key(leafRK), true},
			{"RSA leaf", "TLS", certs(rsaB, interB, rootB), rsaK, true},
			{"expired leaf", "TLS", certs(oldB, interB, rootB), key(oldK), false},
			{"leaf not valid yet", "tLS", certs(soonB, interB, rootB), key(soonK), false},
			{"leaf alone", "TLS", certs(leafB), key(leafK), false},
			{"intermediate missing", "TLS", certs(leafB, rootB), key(leafK), false},
			{"root missing", "TLS", certs(leafB, interB), key(leafK), false},
			{"another root", "tls", certs(leafB, interB, otherB), key(leafK), false},
			{"expired intermediate", "TLS", certs(leafOB, oldIB, rootB), key(leafOK), false},
			{"self-signed leaf", "TLS", certs(selfB), key(selfK), false},
			{"key of another certificate", "TLS", certs(leafB, interB, rootB), key(leafRK), false},
			{"no certificate", "TLS", "", "", false},
			{"no key", "tls", certs(leafB, interB, rootB), "", false},
			{"garbage", "TLS", "garbage", "garbage", false},
			{"plain HTTP", "HTTP", "", "", true},
		}
		dir, err := os.MkdirTemp("", "vrfc15")
		if err != nil {
			v.fail("no scratch directory: %v", err)
			return
		}
		defer os.RemoveAll(dir)
		type m = map[string]interface{}
		var wg sync.WaitGroup
		for i := range cases {
			c, i := cases[i], i
			wg.Add(1)
			go func() {
				defer wg.Done()
				port := vrfPort()
				b, _ := json.Marshal(m{
					"routes":     []m{{"path": "/", "resource": "r"}},
					"resources":  m{"r": []m{{"url": m{"scheme": "http", "host": "127.0.0.1", "port": 1}}}},
					"connection": m{"downstream": m{"port": port, "mode": c.mode, "cert": c.cert, "key": c.key}}})
				desc := fmt.Sprintf("mode %s: %s", c.mode, c.what)
				v.run("listeners", desc, func() {
					ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
					defer cancel()
					d := fmt.Sprintf("%s/%d", dir, i)
					os.MkdirAll(d, 0755)
					cmd := vrfChild(ctx, d, J8ACFG_YML+"="+string(b), "VRF_HOLD=1")
					if cmd.Start() != nil {
						return
					}
					dead := make(chan bool)
					go func() { cmd.Wait(); close(dead) }()
					defer func() { cancel(); <-dead }()
					addr := fmt.Sprintf("127.0.0.1:%d", port)
					up := false
					for n := 0; n < 200 && !up; n++ {
						if k, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
							k.Close()
							if !vrfForeign(cmd.Process.Pid, port) {
								up = true
								break
							}
						}
						select {
						case <-dead:
							n = 1000
						case <-time.After(50 * time.Millisecond):
						}
					}
					if up != c.ok {
						if c.ok {
							v.fail("%s: the server does not start", desc)
						} else {
							v.fail("%s: the server starts", desc)
						}
						return
					}
					if !up || c.mode == "HTTP" {
						return
					}
					if k, err := net.Dial("tcp", addr); err == nil {
						k.SetDeadline(time.Now().Add(5 * time.Second))
						io.WriteString(k, "GET / HTTP/1.1\r\nHost: x\r\n\r\n")
						b, _ := io.ReadAll(k)
						if strings.Contains(string(b), "j8a") {
							v.fail("%s: answers in plain text: %s", desc, vrfClip(b))
						}
						k.Close()
					}
					try := func(what string, want bool, cfg *tls.Config) {
						cfg.InsecureSkipVerify = true
						dl := &net.Dialer{Timeout: 5 * time.Second}
						k, err := tls.DialWithDialer(dl, "tcp", addr, cfg)
						if (err == nil) != want {
							v.fail("%s: handshake with %s: %v", desc, what, err)
						}
						if err == nil {
							if k.ConnectionState().Version < tls.VersionTLS12 {
								v.fail("%s: version %x agreed with %s", desc, k.ConnectionState().Version, what)
							}
							k.Close()
						}
					}
					try("TLS 1.0", false, &tls.Config{MinVersion: tls.VersionTLS10, MaxVersion: tls.VersionTLS10})
					try("TLS 1.1", false, &tls.Config{MinVersion: tls.VersionTLS10, MaxVersion: tls.VersionTLS11})
					if c.key == rsaK {
						try("TLS 1.2", true, &tls.Config{MaxVersion: tls.VersionTLS12})
					}
					try("TLS 1.3", true, &tls.Config{MinVersion: tls.VersionTLS13})
					for _, s := range append(tls.CipherSuites(), tls.InsecureCipherSuites()...) {
						if !strings.Contains(s.Name, "ECDHE") || strings.Contains(s.Name, "CBC") || strings.Contains(s.Name, "RC4") {
							if len(s.SupportedVersions) > 0 && s.SupportedVersions[len(s.SupportedVersions)-1] < tls.VersionTLS13 {
								try(s.Name, false, &tls.Config{MinVersion: tls.VersionTLS10, MaxVersion: tls.VersionTLS12, CipherSuites: []uint16{s.ID}})
							}
						}
					}
				})
			}()
		}
		wg.Wait()
		// the upstream client
		hit := 0
		var mu sync.Mutex
		up := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			mu.Lock()
			hit++
			mu.Unlock()
			for _, c := range []int{301, 302, 303, 307, 308} {
				if r.URL.Path == fmt.Sprintf("/%d", c) {
					w.Header().Set("Location", "/elsewhere")
					w.WriteHeader(c)
				}
			}
		}))
		up.Config.ErrorLog = nil
		up.StartTLS()
		defer up.Close()
		for _, skip := range []bool{false, true} {
			for _, socket := range []int{0, 1, 3, 100} {
				cfg := vrfConfig(1, 100)
				cfg.Connection.Upstream.TlsInsecureSkipVerify = skip
				cfg.Connection.Upstream.SocketTimeoutSeconds = socket
				for _, p := range []string{"/", "/301", "/302", "/303", "/307", "/308"} {
					for _, method := range []string{"GET", "POST"} {
						desc := fmt.Sprintf("skip verification %v, %s %s", skip, method, p)
						v.run("upstream TLS", desc, func() {
							saved := httpClient
							defer func() { httpClient = saved }()
							httpClient = nil
							vrfBoot(cfg)
							httpClient = nil
							Runner.initUserAgent()
							req, _ := http.NewRequest(method, up.URL+p, strings.NewReader("x"))
							mu.Lock()
							before := hit
							mu.Unlock()
							res, err := httpClient.Do(req)
							if err == nil {
								defer res.Body.Close()
							}
							if (err == nil) != skip {
								v.fail("%s: certificate of an unknown authority: %v", desc, err)
								return
							}
							mu.Lock()
							n := hit - before
							mu.Unlock()
							if err == nil && (n != 1 || p != "/" && res.StatusCode < 300) {
								v.fail("%s: redirect followed, %d requests, status %d", desc, n, res.StatusCode)
							}
							httpClient.(*http.Client).CloseIdleConnections()
						})
					}
				}
			}
		}
	})
}
