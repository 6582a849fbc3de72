package j8a

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"
)

type vrfJwtC21 struct {
	what  string
	yml   map[string]interface{}
	valid bool
}

func vrfPemC21(typ string, b []byte) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b}))
}

func TestVerifC21(t *testing.T) {
	vrfRun(t, "C21", func(v *vrf) {
		pkix := func(k interface{}) []byte {
			b, _ := x509.MarshalPKIXPublicKey(k)
			return b
		}
		r, _ := rsa.GenerateKey(crand.Reader, 1024)
		e256, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		e384, _ := ecdsa.GenerateKey(elliptic.P384(), crand.Reader)
		e521, _ := ecdsa.GenerateKey(elliptic.P521(), crand.Reader)
		rp, p256, p384, p521 := vrfPemC21("PUBLIC KEY", pkix(&r.PublicKey)), vrfPemC21("PUBLIC KEY", pkix(&e256.PublicKey)), vrfPemC21("PUBLIC KEY", pkix(&e384.PublicKey)), vrfPemC21("PUBLIC KEY", pkix(&e521.PublicKey))
		type m = map[string]interface{}
		var jwts []vrfJwtC21
		ad := func(valid bool, what string, y m) { jwts = append(jwts, vrfJwtC21{what, y, valid}) }
		for _, a := range []string{"HS256", "HS384", "HS512"} {
			ad(true, "secret", m{"alg": a, "key": "secret"})
		}
		for _, a := range []string{"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"} {
			ad(true, "rsa", m{"alg": a, "key": rp})
			ad(false, "rsa algorithm with ecdsa key", m{"alg": a, "key": p256})
			ad(false, "rsa algorithm with text", m{"alg": a, "key": "secret"})
		}
		for i, a := range []string{"ES256", "ES384", "ES512"} {
			for j, k := range []string{p256, p384, p521} {
				ad(i == j, "ecdsa curve", m{"alg": a, "key": k})
			}
			ad(false, "ecdsa algorithm with rsa key", m{"alg": a, "key": rp})
		}
		ad(true, "none", m{"alg": "none"})
		ad(false, "none with key", m{"alg": "none", "key": "x"})
		ad(false, "unknown algorithm", m{"alg": "HS999", "key": "x"})
		ad(false, "algorithm in lower case", m{"alg": "hs256", "key": "x"})
		ad(false, "None in capitals", m{"alg": "None"})
		ad(false, "no algorithm", m{"key": "x"})
		ad(false, "no algorithm, remote keys", m{"jwksUrl": "http://127.0.0.1:1/jwks"})
		ad(false, "nothing", m{})
		ad(false, "empty entry", nil)
		ad(false, "no key", m{"alg": "HS256"})
		ad(false, "no key, RSA", m{"alg": "RS256"})
		ad(false, "remote keys out of reach", m{"alg": "RS256", "jwksUrl": "http://127.0.0.1:1/jwks"})
		ad(false, "data after the key", m{"alg": "RS256", "key": rp + "more"})
		ad(false, "wrong kind of block", m{"alg": "RS256", "key": vrfPemC21("PRIVATE KEY", pkix(&r.PublicKey))})
		ad(false, "garbage in the block", m{"alg": "ES256", "key": vrfPemC21("PUBLIC KEY", []byte("garbage"))})
		ad(false, "garbage certificate", m{"alg": "ES256", "key": vrfPemC21("CERTIFICATE", []byte("garbage"))})
		for s, ok := range map[string]bool{"0": true, "1": true, "120": true, "-1": false, "-120": false, "abc": false, "1.5": false, "1s": false} {
			ad(ok, "skew "+s, m{"alg": "HS256", "key": "secret", "acceptableSkewSeconds": s})
			ad(ok, "skew with none "+s, m{"alg": "none", "acceptableSkewSeconds": s})
		}
		type conf struct {
			yml   string
			valid bool
			mark  string
		}
		n := 0
		build := func(good bool, one *vrfJwtC21) conf {
			n++
			c := conf{valid: true, mark: fmt.Sprintf("mark%d", n)}
			js := m{}
			var names []string
			if one != nil {
				js["subject"] = one.yml
				names = append(names, "subject")
				c.valid = one.valid
			}
			for k := v.rnd.Intn(3); k > 0; k-- {
				name := fmt.Sprintf("jwt%d", k)
				x := jwts[v.rnd.Intn(len(jwts))]
				if good && !x.valid {
					continue
				}
				js[name] = x.yml
				names = append(names, name)
				c.valid = c.valid && x.valid
			}
			paths := []string{"/a", "a", "/b/c", "/longer/path", "/x.*", "/[a-z]+", "/"}
			bad := []string{"/(", "/[z-a]", "a**", "/x)"}
			trans := []string{"", "", "/t", "/t/u", "//"}
			badt := []string{"t", "t/", " /t", "http://x"}
			var routes []m
			for k := 1 + v.rnd.Intn(4); k > 0; k-- {
				rt := m{"path": v.pick(paths...), "resource": "r"}
				if tr := v.pick(trans...); tr != "" {
					rt["transform"] = tr
				}
				if len(names) > 0 && v.rnd.Intn(2) == 0 {
					rt["jwt"] = v.pick(names...)
				}
				if !good && v.rnd.Intn(3) == 0 {
					c.valid = false
					switch v.rnd.Intn(3) {
					case 0:
						rt["path"] = v.pick(bad...)
						if _, err := regexp.Compile("^" + rt["path"].(string)); err == nil {
							panic("pattern is valid")
						}
					case 1:
						rt["transform"] = v.pick(badt...)
					default:
						rt["jwt"] = v.pick("unknown", "Subject", "JWT1", "subject ")
					}
				}
				routes = append(routes, rt)
			}
			if !good && one == nil && v.rnd.Intn(6) == 0 {
				routes, c.valid = nil, false
			}
			b, _ := json.Marshal(m{"routes": routes, "jwt": js, "policies": m{c.mark: []m{{"label": "l", "weight": 1}}},
				"resources":  m{"r": []m{{"labels": []string{"l"}, "url": m{"scheme": "http", "host": "localhost", "port": 1}}}},
				"connection": m{"downstream": m{"port": vrfPort()}}})
			c.yml = string(b)
			return c
		}
		dir, err := os.MkdirTemp("", "vrfc21")
		if err != nil {
			v.fail("no scratch directory: %v", err)
			return
		}
		defer os.RemoveAll(dir)
		type cse struct {
			desc            string
			file, env, deft *conf
		}
		var cases []cse
		for i := range jwts {
			x := build(true, &jwts[i])
			cases = append(cases, cse{"jwt configuration: " + jwts[i].what, &x, nil, nil})
		}
		for i := 0; i < v.N(60); i++ {
			x := build(i%3 == 0, nil)
			cases = append(cases, cse{"routes", nil, &x, nil})
		}
		for i := 0; i < v.N(40); i++ {
			c := cse{desc: "sources"}
			mk := func() *conf {
				if v.rnd.Intn(3) == 0 {
					return nil
				}
				x := build(v.rnd.Intn(4) > 0, nil)
				if v.rnd.Intn(8) == 0 {
					x = conf{yml: v.pick("{}", "routes: []", "# nothing\n"), mark: "-"}
				}
				return &x
			}
			c.file, c.env, c.deft = mk(), mk(), mk()
			cases = append(cases, c)
		}
		sem := make(chan bool, 8)
		var wg sync.WaitGroup
		for i := range cases {
			c, i := cases[i], i
			sem <- true
			wg.Add(1)
			go func() {
				defer func() { <-sem; wg.Done() }()
				d := filepath.Join(dir, fmt.Sprint(i))
				os.MkdirAll(d, 0755)
				// the source that counts
				use := c.deft
				if c.env != nil {
					use = c.env
				}
				if c.file != nil {
					use = c.file
				}
				desc := c.desc
				var env []string
				if c.file != nil {
					p := filepath.Join(d, "given.yml")
					os.WriteFile(p, []byte(c.file.yml), 0644)
					env = append(env, "VRF_FILE="+p)
					desc += "; given file " + c.file.yml
				}
				if c.env != nil {
					env = append(env, J8ACFG_YML+"="+c.env.yml)
					desc += "; environment " + c.env.yml
				}
				if c.deft != nil {
					os.WriteFile(filepath.Join(d, "j8acfg.yml"), []byte(c.deft.yml), 0644)
					desc += "; default file " + c.deft.yml
				}
				v.run("boots", desc, func() {
					ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
					defer cancel()
					cmd := vrfChild(ctx, d, env...)
					var out bytes.Buffer
					cmd.Stdout, cmd.Stderr = &out, &out
					cmd.Run()
					if ctx.Err() != nil {
						v.line("slow boot")
						return
					}
					j := strings.Index(out.String(), "VRFBOOTED ")
					want := use != nil && use.valid
					if (j >= 0) != want {
						if want {
							v.fail("a valid configuration is refused: %s; output %s", desc, vrfClip(out.Bytes()))
						} else {
							v.fail("the server boots with an invalid configuration: %s", desc)
						}
						return
					}
					if want && !strings.Contains(out.String()[j:], "\""+use.mark+"\"") {
						v.fail("the configuration is not read from the source that comes first (%s): %s; booted with %s", use.mark, desc, out.String()[j:])
					}
				})
			}()
		}
		wg.Wait()
		vrfCommandC21(v, dir)
	})
}

// vrfCommandC21 runs the command itself: the file on the command line comes first, then the environment, then the default file.
func vrfCommandC21(v *vrf, dir string) {
	bin := filepath.Join(dir, "j8a")
	if out, err := exec.Command("go", "build", "-o", bin, "./cmd/j8a").CombinedOutput(); err != nil {
		v.line("command not built: %v %s", err, vrfClip(out))
		return
	}
	n := 0
	once := func(file, env, deft bool) string {
		m := ""
		d := filepath.Join(dir, fmt.Sprintf("cmd%d", n))
		n++
		os.MkdirAll(d, 0755)
		var ports [3]int
		yml := func(i int) string {
			ports[i] = vrfPort()
			return fmt.Sprintf(`{"routes":[{"path":"/a","resource":"r"}],"resources":{"r":[{"url":{"scheme":"http","host":"localhost","port":1}}]},"connection":{"downstream":{"port":%d}}}`, ports[i])
		}
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin)
		cmd.Dir = d
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, J8ACFG_YML+"=") {
				cmd.Env = append(cmd.Env, e)
			}
		}
		want := 2
		if deft {
			os.WriteFile(filepath.Join(d, "j8acfg.yml"), []byte(yml(2)), 0644)
		}
		if env {
			cmd.Env = append(cmd.Env, J8ACFG_YML+"="+yml(1))
			want = 1
		}
		if file {
			os.WriteFile(filepath.Join(d, "given.yml"), []byte(yml(0)), 0644)
			cmd.Args = append(cmd.Args, "-c", "given.yml")
			want = 0
		}
		if err := cmd.Start(); err != nil {
			v.line("command not started: %v", err)
			return ""
		}
		gone := make(chan error, 1)
		go func() { gone <- cmd.Wait() }()
		for {
			for i, p := range ports {
				if p == 0 {
					continue
				}
				c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", p), time.Second)
				if err != nil {
					continue
				}
				c.Close()
				if i != want {
					m = fmt.Sprintf("started with the configuration of source %d, source %d comes first (0 command line, 1 environment, 2 default file)", i, want)
				}
				cancel()
				<-gone
				return m
			}
			select {
			case <-gone:
				if ctx.Err() == nil {
					m = fmt.Sprintf("the command ends instead of starting with source %d (0 command line, 1 environment, 2 default file)", want)
				}
				return m
			case <-time.After(20 * time.Millisecond):
			}
		}
	}
	for mask := 1; mask < 8; mask++ {
		file, env, deft := mask&1 != 0, mask&2 != 0, mask&4 != 0
		v.run("command", fmt.Sprintf("command line file %v, environment %v, default file %v", file, env, deft), func() {
			// a port may be taken by somebody else meanwhile: a verdict counts when it is given three times
			m := ""
			for try := 0; try < 3; try++ {
				if m = once(file, env, deft); m == "" {
					return
				}
			}
			v.fail("%s", m)
		})
	}
}
