package j8a

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/lestrrat-go/jwx/jwa"
)

func vrfB64(b *big.Int, n int) string {
	x := b.Bytes()
	for len(x) < n {
		x = append([]byte{0}, x...)
	}
	return base64.RawURLEncoding.EncodeToString(x)
}

func vrfJwkRSA(kid, alg string, k *rsa.PublicKey) map[string]interface{} {
	m := map[string]interface{}{"kty": "RSA", "n": vrfB64(k.N, 0), "e": "AQAB"}
	if kid != "" {
		m["kid"] = kid
	}
	if alg != "" {
		m["alg"] = alg
	}
	return m
}

func vrfJwkEC(kid, alg string, k *ecdsa.PublicKey) map[string]interface{} {
	n := (k.Curve.Params().BitSize + 7) / 8
	m := map[string]interface{}{"kty": "EC", "crv": k.Curve.Params().Name, "x": vrfB64(k.X, n), "y": vrfB64(k.Y, n)}
	if kid != "" {
		m["kid"] = kid
	}
	if alg != "" {
		m["alg"] = alg
	}
	return m
}

var vrfCurves = map[string]elliptic.Curve{"ES256": elliptic.P256(), "ES384": elliptic.P384(), "ES512": elliptic.P521()}

func vrfPemPub(k interface{}) string {
	b, _ := x509.MarshalPKIXPublicKey(k)
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
}

func vrfPemCert(pub, signer interface{}) string {
	tpl := &x509.Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: "x"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	b, err := x509.CreateCertificate(crand.Reader, tpl, tpl, pub, signer)
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: b}))
}

func TestVerifC06(t *testing.T) {
	vrfRun(t, "C06", func(v *vrf) {
		// histories of a key set against a map
		for i := 0; i < v.N(600); i++ {
			var hist []string
			v.run("key set history", fmt.Sprint(i), func() {
				ks := KeySet{}
				if v.rnd.Intn(2) == 0 {
					ks = make(KeySet, 0, v.rnd.Intn(6))
				}
				oracle := map[string]interface{}{}
				for j := v.rnd.Intn(12); j >= 0; j-- {
					kid := v.pick("a", "b", "c", "", "aa", "A", "B", " a", "a ")
					key := v.rnd.Int()
					ks.Upsert(KidPair{Kid: kid, Key: key})
					oracle[kid] = key
					hist = append(hist, fmt.Sprintf("%s=%d", kid, key))
					for _, k := range []string{"a", "b", "c", "", "aa", "A", "B", " a", "a ", "C", "zz"} {
						if got := ks.Find(k); got != oracle[k] {
							v.fail("after %v: Find(%q) = %v, expected %v", hist, k, got, oracle[k])
						}
					}
					if len(ks) != len(oracle) {
						v.fail("after %v: %d entries for %d ids", hist, len(ks), len(oracle))
					}
				}
			})
		}
		r1, _ := rsa.GenerateKey(crand.Reader, 1024)
		r2, _ := rsa.GenerateKey(crand.Reader, 1024)
		ec := map[string][]*ecdsa.PrivateKey{}
		for a, c := range vrfCurves {
			for i := 0; i < 2; i++ {
				k, _ := ecdsa.GenerateKey(c, crand.Reader)
				ec[a] = append(ec[a], k)
			}
		}
		rsaAlgs := []string{"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"}
		ecAlgs := []string{"ES256", "ES384", "ES512"}
		hsAlgs := []string{"HS256", "HS384", "HS512"}
		all := append(append(append([]string{}, rsaAlgs...), ecAlgs...), hsAlgs...)
		isIn := func(a string, l []string) bool {
			for _, x := range l {
				if x == a {
					return true
				}
			}
			return false
		}
		good := func(alg string, key interface{}) bool {
			switch k := key.(type) {
			case *rsa.PublicKey:
				return isIn(alg, rsaAlgs) && k.N != nil && k.N.Sign() > 0
			case *ecdsa.PublicKey:
				return isIn(alg, ecAlgs) && k.Curve != nil && k.Curve == vrfCurves[alg]
			case []byte:
				return isIn(alg, hsAlgs)
			}
			return false
		}
		sound := func(j *Jwt, why string) {
			for _, kp := range j.RSAPublic {
				if _, ok := kp.Key.(*rsa.PublicKey); !ok || !good(j.Alg, kp.Key) {
					v.fail("%s: key %T (%s) in the RSA set of alg %s", why, kp.Key, kp.Kid, j.Alg)
				}
			}
			for _, kp := range j.ECDSAPublic {
				if _, ok := kp.Key.(*ecdsa.PublicKey); !ok || !good(j.Alg, kp.Key) {
					v.fail("%s: key %T (%s) in the ECDSA set of alg %s", why, kp.Key, kp.Kid, j.Alg)
				}
			}
			for _, kp := range j.Secret {
				if !isIn(j.Alg, hsAlgs) {
					v.fail("%s: secret %s in alg %s", why, kp.Kid, j.Alg)
				}
			}
		}
		// configured keys
		texts := map[string]string{"rsa": vrfPemPub(&r1.PublicKey), "rsacert": vrfPemCert(&r1.PublicKey, r1), "secret": "mysecret", "two": vrfPemPub(&r1.PublicKey) + vrfPemPub(&r2.PublicKey)}
		for a, ks := range ec {
			texts[a] = vrfPemPub(&ks[0].PublicKey)
			texts[a+"cert"] = vrfPemCert(&ks[0].PublicKey, ks[0])
		}
		for _, alg := range append(all, "none") {
			for name, txt := range texts {
				alg, name, txt := alg, name, txt
				v.run("configured key", alg+" "+name, func() {
					j := NewJwt("j", alg, txt, "", "10")
					err := j.Validate()
					sound(j, "configured key "+name)
					n := len(j.RSAPublic) + len(j.ECDSAPublic) + len(j.Secret)
					should := isIn(alg, hsAlgs) || (isIn(alg, rsaAlgs) && (name == "rsa" || name == "rsacert")) || (isIn(alg, ecAlgs) && (name == alg || name == alg+"cert"))
					if should && (err != nil || n != 1) {
						v.fail("configured key %s for %s: %d keys stored, %v", name, alg, n, err)
					}
					if !should && (err == nil || n != 0) {
						v.fail("configured key %s does not fit %s: %d keys stored, %v", name, alg, n, err)
					}
				})
			}
		}
		// remote key sets, fetched repeatedly
		var doc []byte
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write(doc) }))
		defer srv.Close()
		for i := 0; i < v.N(300); i++ {
			alg := all[v.rnd.Intn(9)] // no HMAC
			v.run("remote key sets", alg, func() {
				j := NewJwt("j", alg, "", srv.URL, "10")
				last := map[string]string{}
				var trail []string
				for round := 0; round < 3; round++ {
					var keys []map[string]interface{}
					bad := false
					accepted := map[string]string{}
					fitting := map[string]bool{}
					for n := 1 + v.rnd.Intn(3); n > 0; n-- {
						kid := v.pick("k1", "k2", "k3", "", "K1", "k1 ")
						ka := alg
						if v.rnd.Intn(6) == 0 {
							ka = v.pick("RS256", "ES256", "ES384", "PS512", "HS256", "", "none")
						}
						var m map[string]interface{}
						fits := false
						if v.rnd.Intn(6) == 0 {
							m = map[string]interface{}{"kty": "oct", "k": "c2VjcmV0", "kid": kid, "alg": ka}
						} else if isIn(ka, ecAlgs) != (v.rnd.Intn(6) == 0) {
							ca := ka
							if !isIn(ca, ecAlgs) || v.rnd.Intn(5) == 0 {
								ca = ecAlgs[v.rnd.Intn(3)]
							}
							k := &ec[ca][v.rnd.Intn(2)].PublicKey
							m = vrfJwkEC(kid, ka, k)
							fits = ka == alg && ca == alg
						} else {
							k := &r1.PublicKey
							if v.rnd.Intn(2) == 0 {
								k = &r2.PublicKey
							}
							m = vrfJwkRSA(kid, ka, k)
							fits = ka == alg && isIn(alg, rsaAlgs)
						}
						keys = append(keys, m)
						if !fits {
							bad = true
						} else {
							fitting[kid+" "+fmt.Sprint(m["n"], m["x"])] = true
							if !bad {
								accepted[kid] = fmt.Sprint(m["n"], m["x"])
							}
						}
					}
					doc, _ = json.Marshal(map[string]interface{}{"keys": keys})
					trail = append(trail, string(doc))
					before := map[string]string{}
					for k, x := range last {
						before[k] = x
					}
					j.updateCount = 0
					err := j.LoadJwks()
					sound(j, "remote keys "+string(doc))
					set := j.RSAPublic
					if isIn(alg, ecAlgs) {
						set = j.ECDSAPublic
					}
					got := map[string]string{}
					for _, kp := range set {
						if _, dup := got[kp.Kid]; dup {
							v.fail("alg %s: key id %q twice after %v", alg, kp.Kid, trail)
						}
						got[kp.Kid] = vrfKeyText(set.Find(kp.Kid))
						if x := got[kp.Kid]; before[kp.Kid] != x && !fitting[kp.Kid+" "+x] {
							v.fail("alg %s: key id %q took a key that is not declared for this algorithm; key set %s", alg, kp.Kid, doc)
						}
					}
					if !bad {
						if err != nil {
							v.fail("alg %s: fitting key set refused: %v %s", alg, err, doc)
						}
						for kid, x := range accepted {
							last[kid] = x
							if got[kid] != x {
								v.fail("alg %s: key id %q holds %s, expected the most recent %s; history %v", alg, kid, got[kid], x, trail)
							}
						}
						for kid, x := range before {
							if _, new := accepted[kid]; !new && got[kid] != x {
								v.fail("alg %s: other key id %q changed from %s to %s; history %v", alg, kid, x, got[kid], trail)
							}
						}
					} else {
						// how many of the keys before the misfit were taken is open
						for kid := range got {
							last[kid] = got[kid]
						}
					}
				}
			})
		}
		for _, a := range ecAlgs {
			for c, ks := range ec {
				a, c, ks := a, c, ks
				v.run("curve size", a+" "+c, func() {
					err := new(Jwt).checkECDSABitSize(jwa.SignatureAlgorithm(a), &ks[0].PublicKey)
					if (err == nil) != (a == c) {
						v.fail("alg %s with a key for %s: %v", a, c, err)
					}
				})
			}
		}
		k224, _ := ecdsa.GenerateKey(elliptic.P224(), crand.Reader)
		for _, a := range ecAlgs {
			a := a
			v.run("curve size", a+" P224", func() {
				j := NewJwt("j", a, vrfPemPub(&k224.PublicKey), "", "10")
				if err := j.Validate(); err == nil || len(j.ECDSAPublic) > 0 {
					v.fail("alg %s accepts a P-224 key", a)
				}
			})
		}
		_ = strings.ToUpper
	})
}

func vrfKeyText(k interface{}) string {
	switch x := k.(type) {
	case *rsa.PublicKey:
		return fmt.Sprint(vrfB64(x.N, 0), nil)
	case *ecdsa.PublicKey:
		n := (x.Curve.Params().BitSize + 7) / 8
		return fmt.Sprint(nil, vrfB64(x.X, n))
	}
	return fmt.Sprint(k)
}
