package j8a

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"testing"
	"time"
)

// vrfSnapshot shows all of the configuration, in order.
func vrfSnapshot() string {
	c := Runner.Config
	js := map[string]string{}
	for k, j := range c.Jwt {
		js[k] = fmt.Sprintf("%p %q %q %q %q %q secret %v rsa %v ec %v", j, j.Name, j.Alg, j.Key, j.JwksUrl, j.AcceptableSkewSeconds, j.Secret, j.RSAPublic, j.ECDSAPublic)
	}
	var rs []string
	for _, r := range c.Routes {
		rs = append(rs, fmt.Sprintf("%q %v %q %q %q %q", r.Path, r.PathRegex, r.Transform, r.Resource, r.Policy, r.Jwt))
	}
	b, err := json.Marshal([]interface{}{c.Policies, rs, js, c.Resources, c.Connection})
	return fmt.Sprint(string(b), err)
}

func TestVerifC20(t *testing.T) {
	vrfRun(t, "C20", func(v *vrf) {
		hs := func(key string) string {
			enc := base64.RawURLEncoding.EncodeToString
			in := enc([]byte(`{"alg":"HS256","typ":"JWT"}`)) + "." + enc([]byte(fmt.Sprintf(`{"sub":"x","exp":%d}`, time.Now().Add(time.Hour).Unix())))
			m := hmac.New(sha256.New, []byte(key))
			m.Write([]byte(in))
			return in + "." + enc(m.Sum(nil))
		}
		for i := 0; i < v.N(150); i++ {
			cfg := vrfConfig(1+v.rnd.Intn(3), 64)
			labels := []string{"green", "blue", "default"}
			for _, r := range []string{"r1", "r2"} {
				for n := v.rnd.Intn(4); n > 0; n-- {
					cfg.Resources[r] = append(cfg.Resources[r], ResourceMapping{Labels: []string{v.pick(labels...), v.pick(labels...)}, URL: URL{Scheme: v.pick("http", "https", ""), Host: v.pick(fmt.Sprintf("h%d.example", n), fmt.Sprintf("H%d.Example", n), ""), Port: uint16(v.rnd.Intn(3) * (80 + n))}})
				}
			}
			cfg.Policies["p"] = Policy{{Label: "green", Weight: 0.2}, {Label: "blue", Weight: 0.8}}
			cfg.Policies["q"] = Policy{{Label: "blue", Weight: 0.1}, {Label: "default", Weight: 0.2}, {Label: "green", Weight: 0.7}}
			cfg.Jwt["j"] = NewJwt("j", "HS256", "secret", "", v.pick("0", "120", ""))
			cfg.Jwt["n"] = NewJwt("n", "none", "", "", "")
			for _, j := range cfg.Jwt {
				j.Validate()
			}
			cfg.Routes = Routes{}
			for _, p := range []string{"/", "/a", "/a/b", "/x"} {
				if v.rnd.Intn(4) > 0 {
					cfg.Routes = append(cfg.Routes, Route{Path: p, Resource: v.pick("r1", "r2", "main"), Policy: v.pick("", "p", "q"), Jwt: v.pick("", "", "j", "n"), Transform: v.pick("", "/t", "/t/u", "/")})
				}
			}
			c := &vrfCase{attempts: 1, max: 64}
			vrfBoot(cfg)
			before := vrfSnapshot()
			var done []string
			for n := 0; n < 8; n++ {
				c.req = v.request(64)
				c.req.uri = v.pick("/", "/a", "/a/b?q=1", "/x/y", "/zzz", "/a%20b")
				if v.rnd.Intn(2) == 0 {
					if c.req.header == nil {
						c.req.header = http.Header{}
					}
					c.req.header["Authorization"] = []string{v.pick("Bearer "+hs("secret"), "Bearer "+hs("other"), "Bearer x", "Basic y", "")}
				}
				cl := newVrfClient()
				cl.all = v.script()
				httpClient = cl
				done = append(done, c.req.String())
				v.run("requests", c.req.String(), func() {
					tr := vrfServe(c.req, cl, "")
					_ = tr
					if now := vrfSnapshot(); now != before {
						v.fail("the configuration changed: before %s after %s; requests %v", before, now, done)
						before = now
					}
				})
			}
		}
	})
}
