package j8a

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"
)

func TestVerifC22(t *testing.T) {
	vrfRun(t, "C22", func(v *vrf) {
		vrfE2E(v, v.N(1500), func(c *vrfCase) string { return "" })
		enc := base64.RawURLEncoding.EncodeToString
		mutate := func(b []byte) []byte {
			b = append([]byte{}, b...)
			for n := v.rnd.Intn(3); n >= 0 && len(b) > 0; n-- {
				switch v.rnd.Intn(4) {
				case 0:
					b[v.rnd.Intn(len(b))] ^= byte(1 << uint(v.rnd.Intn(8)))
				case 1:
					b = b[:v.rnd.Intn(len(b))]
				case 2:
					i := v.rnd.Intn(len(b))
					b = append(append(append([]byte{}, b[:i]...), b[i:]...), b[i:]...)
				default:
					i := v.rnd.Intn(len(b))
					b = append(append(append([]byte{}, b[:i]...), v.bytes(v.rnd.Intn(5))...), b[i:]...)
				}
			}
			return b
		}
		r, _ := rsa.GenerateKey(crand.Reader, 1024)
		e, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		pk := func(k interface{}) []byte {
			b, _ := x509.MarshalPKIXPublicKey(k)
			return b
		}
		blk := func(typ string, b []byte) string {
			return string(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b}))
		}
		// tokens
		hdrs := []string{`{"alg":"HS256"}`, `{"alg":"HS256","kid":"a"}`, `{"alg":"RS256","kid":"zz"}`, `{"alg":"ES256"}`, `{"alg":"none"}`, `{}`, `null`, `[]`, `{"alg":1}`, `{"alg":"HS256","kid":1}`, `{"alg":"HS256","crit":["b64"],"b64":false}`, ``}
		bods := []string{`{"sub":"x"}`, `{}`, `null`, `[]`, `"x"`, `{"exp":1}`, `{"exp":"x"}`, `{"exp":1e300}`, `{"iat":-1,"nbf":99999999999999}`, `{"exp":null}`, ``, `{"nbf":[]}`}
		jw := map[string]*Jwt{
			"hs":   NewJwt("hs", "HS256", "secret", "", "10"),
			"rs":   NewJwt("rs", "RS256", blk("PUBLIC KEY", pk(&r.PublicKey)), "", ""),
			"es":   NewJwt("es", "ES256", blk("PUBLIC KEY", pk(&e.PublicKey)), "", "0"),
			"none": NewJwt("none", "none", "", "", ""),
		}
		for _, j := range jw {
			j.Validate()
		}
		for i := 0; i < v.N(1500); i++ {
			h, b := v.pick(hdrs...), v.pick(bods...)
			in := enc([]byte(h)) + "." + enc([]byte(b))
			m := hmac.New(sha256.New, []byte("secret"))
			m.Write([]byte(in))
			tok := in + "." + enc(m.Sum(nil))
			switch v.rnd.Intn(6) {
			case 0:
				tok = string(mutate([]byte(tok)))
			case 1:
				tok = in + "."
			case 2:
				tok = v.pick("", ".", "..", "...", "a", "a.b", "a.b.c", "....", in)
			}
			auth := v.pick("Bearer ", "Bearer ", "Bearer ", "bearer ", "Basic ", "", "Bearer", " ") + tok
			if v.rnd.Intn(20) == 0 {
				auth = v.pick("", " ", "Bearer", "Bearer ", "Bearer  x", "x y z")
			}
			cfg := vrfConfig(1, 64)
			cfg.Jwt = jw
			name := v.pick("hs", "rs", "es", "none")
			cfg.Routes = Routes{{Path: "/", Resource: "main", Jwt: name}}
			c := &vrfCase{req: vrfReq{method: "GET", uri: "/x", header: http.Header{"Authorization": []string{auth}}}, script: []vrfUp{{status: 200, body: []byte("x")}}, attempts: 1, max: 64, cfg: cfg}
			if v.rnd.Intn(30) == 0 {
				c.req.header = http.Header{"Authorization": []string{}}
			}
			vrfOne(v, "tokens for "+name, c, func(c *vrfCase) string { return "" })
		}
		// configured keys
		now := time.Now()
		_, _, caB := vrfCert("CA", true, nil, nil, now.Add(-time.Hour), now.Add(time.Hour), big.NewInt(1))
		algs := []string{"HS256", "RS256", "PS512", "ES256", "ES384", "ES512", "none", "", "x"}
		types := []string{"PUBLIC KEY", "RSA PUBLIC KEY", "CERTIFICATE", "PRIVATE KEY", "", "EC PRIVATE KEY"}
		pkcs8, _ := x509.MarshalPKCS8PrivateKey(r)
		raw := [][]byte{pk(&r.PublicKey), pk(&e.PublicKey), caB, pkcs8, x509.MarshalPKCS1PublicKey(&r.PublicKey), nil, []byte("x")}
		for i := 0; i < v.N(2500); i++ {
			b := raw[v.rnd.Intn(len(raw))]
			if v.rnd.Intn(3) == 0 {
				b = mutate(b)
			}
			txt := blk(v.pick(types...), b)
			switch v.rnd.Intn(6) {
			case 0:
				txt = string(mutate([]byte(txt)))
			case 1:
				txt += v.pick("x", "\n", " ", txt)
			case 2:
				txt = v.pick("", "x", "-----BEGIN PUBLIC KEY-----", "-----BEGIN PUBLIC KEY-----\n-----END PUBLIC KEY-----\n", "\n")
			}
			alg := v.pick(algs...)
			v.run("configured keys", fmt.Sprintf("alg %s key %q", alg, txt), func() {
				NewJwt("j", alg, txt, "", v.pick("", "1", "-1", "x", "99999999999999999999")).Validate()
			})
		}
		// remote key sets
		var doc string
		status := 200
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(status); fmt.Fprint(w, doc) }))
		defer srv.Close()
		rs := fmt.Sprintf(`{"kty":"RSA","n":"%s","e":"AQAB","kid":"a","alg":"RS256"}`, enc(r.N.Bytes()))
		es := fmt.Sprintf(`{"kty":"EC","crv":"P-256","x":"%s","y":"%s","alg":"ES256"}`, enc(e.X.Bytes()), enc(e.Y.Bytes()))
		keys := []string{rs, es, `{}`, `null`, `{"kty":"RSA","alg":"RS256"}`, `{"kty":"RSA","alg":"RS256","n":"","e":""}`, `{"kty":"EC","alg":"ES256"}`, `{"kty":"EC","crv":"P-256","x":"AA","y":"AA","alg":"ES256"}`,
			`{"kty":"oct","k":"AA","alg":"ES256"}`, `{"kty":"oct","alg":"RS256"}`, `{"kty":"OKP","crv":"Ed25519","x":"AA","alg":"ES256"}`, strings.Replace(es, "ES256", "RS256", 1), strings.Replace(rs, "RS256", "ES256", 1), strings.Replace(es, "ES256", "ES512", 1), `1`}
		for i := 0; i < v.N(600); i++ {
			var ks []string
			for n := v.rnd.Intn(4); n > 0; n-- {
				ks = append(ks, keys[v.rnd.Intn(len(keys))])
			}
			doc = `{"keys":[` + strings.Join(ks, ",") + `]}`
			status = 200
			switch v.rnd.Intn(8) {
			case 0:
				doc = string(mutate([]byte(doc)))
			case 1:
				doc = v.pick("", "null", "[]", "{}", `{"keys":null}`, `{"keys":{}}`, rs, es, "x")
			case 2:
				status = []int{404, 500, 204, 302}[v.rnd.Intn(4)]
			}
			alg := v.pick("RS256", "ES256", "ES512", "HS256", "none", "")
			v.run("remote key sets", fmt.Sprintf("alg %s status %d document %s", alg, status, doc), func() {
				NewJwt("j", alg, "", srv.URL, "").Validate()
			})
		}
		// certificate chains
		for i := 0; i < v.N(600); i++ {
			var chain tls.Certificate
			for n := 1 + v.rnd.Intn(3); n > 0; n-- {
				b := caB
				if v.rnd.Intn(2) == 0 {
					b = mutate(b)
				}
				if v.rnd.Intn(6) == 0 {
					b = v.bytes(v.rnd.Intn(20))
				}
				chain.Certificate = append(chain.Certificate, b)
			}
			v.run("certificate chains", fmt.Sprint(len(chain.Certificate)), func() { checkCertChain(chain) })
		}
	})
}
