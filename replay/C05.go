package j8a

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/hmac"
	crand "crypto/rand"
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"strings"
	"testing"
	"time"

	_ "crypto/sha256"
	_ "crypto/sha512"
)

func vrfHash(alg string) crypto.Hash {
	switch alg[2:] {
	case "384":
		return crypto.SHA384
	case "512":
		return crypto.SHA512
	}
	return crypto.SHA256
}

func vrfSign(alg string, key interface{}, input string) []byte {
	if alg == "none" || key == nil {
		return nil
	}
	h := vrfHash(alg)
	switch k := key.(type) {
	case []byte:
		m := hmac.New(h.New, k)
		m.Write([]byte(input))
		return m.Sum(nil)
	case *rsa.PrivateKey:
		d := h.New()
		d.Write([]byte(input))
		var s []byte
		var err error
		if strings.HasPrefix(alg, "PS") {
			s, err = rsa.SignPSS(crand.Reader, k, h, d.Sum(nil), &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthAuto, Hash: h})
		} else {
			s, err = rsa.SignPKCS1v15(crand.Reader, k, h, d.Sum(nil))
		}
		if err != nil {
			panic(err)
		}
		return s
	case *ecdsa.PrivateKey:
		d := h.New()
		d.Write([]byte(input))
		r, s, err := ecdsa.Sign(crand.Reader, k, d.Sum(nil))
		if err != nil {
			panic(err)
		}
		n := (k.Curve.Params().BitSize + 7) / 8
		out := make([]byte, 2*n)
		r.FillBytes(out[:n])
		s.FillBytes(out[n:])
		return out
	}
	panic("key")
}

func vrfToken(hdr, claims map[string]interface{}, alg string, key interface{}) string {
	a, _ := json.Marshal(hdr)
	b, _ := json.Marshal(claims)
	in := base64.RawURLEncoding.EncodeToString(a) + "." + base64.RawURLEncoding.EncodeToString(b)
	return in + "." + base64.RawURLEncoding.EncodeToString(vrfSign(alg, key, in))
}

func TestVerifC05(t *testing.T) {
	vrfRun(t, "C05", func(v *vrf) {
		rk, _ := rsa.GenerateKey(crand.Reader, 2048)
		rk2, _ := rsa.GenerateKey(crand.Reader, 2048)
		_ = big.NewInt
		for i := 0; i < v.N(1500); i++ {
			algs := []string{"HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "PS256", "PS512", "ES256", "ES384", "ES512", "none", "HS256", "RS256", "ES256", "none"}
			alg := algs[v.rnd.Intn(len(algs))]
			var k1, k2 interface{} // configured and foreign
			var pub1 interface{}
			var kp KidPair
			switch alg[:2] {
			case "HS":
				k1, k2 = []byte("the configured secret"), []byte("another secret")
				pub1 = k1
			case "RS", "PS":
				k1, k2 = rk, rk2
				pub1 = &rk.PublicKey
			case "ES":
				a, _ := ecdsa.GenerateKey(vrfCurvesC05(alg), crand.Reader)
				b, _ := ecdsa.GenerateKey(vrfCurvesC05(alg), crand.Reader)
				k1, k2 = a, b
				pub1 = &a.PublicKey
			}
			kp = KidPair{Kid: v.pick("kid1", "kid1", "other", ""), Key: pub1}
			skew := []string{"0", "10", "120", "", "60"}[v.rnd.Intn(5)]
			sk := 120
			if skew != "" {
				sk = 0
				fmt.Sscan(skew, &sk)
			}
			j := &Jwt{Name: "jwt", Alg: alg, AcceptableSkewSeconds: skew}
			if skew == "" {
				j.AcceptableSkewSeconds = "120"
			}
			j.Init()
			set := KeySet{}
			var extra []interface{}
			if alg != "none" {
				// possibly several configured keys
				if v.rnd.Intn(3) == 0 {
					var e interface{}
					var pubE interface{}
					switch alg[:2] {
					case "HS":
						e = []byte("second configured secret")
						pubE = e
					case "RS", "PS":
						x, _ := rsa.GenerateKey(crand.Reader, 1024)
						e, pubE = x, &x.PublicKey
						if strings.HasSuffix(alg, "512") {
							e, pubE = nil, nil
						}
					case "ES":
						x, _ := ecdsa.GenerateKey(vrfCurvesC05(alg), crand.Reader)
						e, pubE = x, &x.PublicKey
					}
					if e != nil {
						extra = append(extra, e)
						set.Upsert(KidPair{Kid: "first", Key: pubE})
					}
				}
				set.Upsert(kp)
				switch alg[:2] {
				case "HS":
					j.Secret = set
				case "ES":
					j.ECDSAPublic = set
				default:
					j.RSAPublic = set
				}
			}
			now := time.Now().Unix()
			claims := map[string]interface{}{"sub": "x"}
			dates := true
			around := func() int64 {
				return []int64{-100000, -int64(sk) - 60, -int64(sk) + 8, -5, 5, int64(sk) - 8, int64(sk) + 60, 100000}[v.rnd.Intn(8)]
			}
			desc := ""
			if v.rnd.Intn(2) == 0 {
				d := around()
				claims["exp"] = now + d
				if d+int64(sk) <= 2 {
					if d+int64(sk) > -3 {
						continue
					}
					dates = false
				}
				desc += fmt.Sprintf(" exp=now%+d", d)
			}
			if v.rnd.Intn(3) == 0 {
				d := around()
				if d-int64(sk) > -3 && d-int64(sk) < 3 {
					continue
				}
				claims["nbf"] = now + d
				if d > int64(sk) {
					dates = false
				}
				desc += fmt.Sprintf(" nbf=now%+d", d)
			}
			if v.rnd.Intn(3) == 0 {
				d := around()
				if d-int64(sk) > -3 && d-int64(sk) < 3 {
					continue
				}
				claims["iat"] = now + d
				if d > int64(sk) {
					dates = false
				}
				desc += fmt.Sprintf(" iat=now%+d", d)
			}
			hdr := map[string]interface{}{"alg": alg, "typ": "JWT"}
			if v.rnd.Intn(2) == 0 {
				hdr["kid"] = v.pick("kid1", "other", "unknown", "first", "")
			}
			ok := dates
			mode := v.pick("good", "good", "good", "good", "foreign key", "tampered", "alg none", "no signature", "hs with public key", "missing", "empty", "junk", "two parts", "not bearer", "extra key", "other alg", "truncated signature", "multi")
			auth := ""
			tok := ""
			switch mode {
			case "good":
				tok = vrfToken(hdr, claims, alg, k1)
			case "extra key":
				if len(extra) == 0 {
					continue
				}
				tok = vrfToken(hdr, claims, alg, extra[0])
			case "foreign key":
				if alg == "none" {
					continue
				}
				tok = vrfToken(hdr, claims, alg, k2)
				ok = false
			case "tampered":
				if alg == "none" {
					continue
				}
				p := strings.Split(vrfToken(hdr, claims, alg, k1), ".")
				claims["sub"] = "admin"
				b, _ := json.Marshal(claims)
				p[1] = base64.RawURLEncoding.EncodeToString(b)
				tok = strings.Join(p, ".")
				ok = false
			case "alg none":
				hdr["alg"] = "none"
				tok = vrfToken(hdr, claims, "none", nil)
				ok = ok && alg == "none"
			case "no signature":
				if alg == "none" {
					continue
				}
				p := strings.Split(vrfToken(hdr, claims, alg, k1), ".")
				tok = p[0] + "." + p[1] + "."
				ok = false
			case "truncated signature":
				if alg == "none" {
					continue
				}
				tok = vrfToken(hdr, claims, alg, k1)
				tok = tok[:len(tok)-4]
				ok = false
			case "hs with public key":
				if alg[:2] != "RS" && alg[:2] != "PS" {
					continue
				}
				hdr["alg"] = "HS256"
				tok = vrfToken(hdr, claims, "HS256", []byte(vrfPemPub05(rk)))
				ok = false
			case "other alg":
				if alg[:2] != "HS" {
					continue
				}
				o := map[string]string{"HS256": "HS512", "HS384": "HS256", "HS512": "HS256"}[alg]
				hdr["alg"] = o
				tok = vrfToken(hdr, claims, o, k1)
				ok = false
			case "empty":
				auth, ok = "Bearer ", false
			case "junk":
				auth, ok = "Bearer "+v.pick("x", "a.b.c", "...", ".", "e30.e30.", "e30.e30.AAAA", "\x00", strings.Repeat("A", 500), "bnVsbA.bnVsbA.", "W10.W10.", "e30.W10.x"), false
				if alg == "none" {
					continue
				}
			case "missing":
				ok = false
			case "two parts":
				auth, ok = "Bearer"+vrfToken(hdr, claims, alg, k1), false
			case "not bearer":
				auth, ok = vrfToken(hdr, claims, alg, k1), false
			case "multi":
				if alg == "none" {
					continue
				}
				// good token hidden behind a bad one
				auth, ok = "Bearer "+vrfToken(hdr, claims, alg, k2)+" "+vrfToken(hdr, claims, alg, k1), false
			}
			if tok != "" {
				auth = "Bearer " + tok
			}
			cfg := vrfConfig(1, 64)
			cfg.Jwt["jwt"] = j
			cfg.Routes = Routes{{Path: "/", Resource: "main", Jwt: "jwt"}}
			h := http.Header{}
			if auth != "" {
				h["Authorization"] = []string{auth}
			}
			c := &vrfCase{req: vrfReq{method: "GET", uri: "/", header: h}, script: []vrfUp{{status: 200, body: []byte("x")}}, attempts: 1, max: 64, cfg: cfg}
			vrfOne(v, "tokens", c, func(c *vrfCase) string {
				d := fmt.Sprintf("alg %s, %d keys, kid %q in set, header %v, skew %s,%s, %s token", alg, len(set), kp.Kid, hdr, skew, desc, mode)
				if ok && (len(c.tr.ups) != 1 || c.tr.w.status() != 200) {
					return d + ": refused"
				}
				if !ok && (len(c.tr.ups) != 0 || c.tr.w.status() != 401) {
					return d + ": admitted"
				}
				return ""
			})
		}
		_ = bytes.Equal
	})
}
