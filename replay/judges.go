package j8a

import (
	"bytes"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net/http"
	"regexp"
	"strconv"
	"strings"
)

// Each judge decides one property for one recorded exchange; "" means it holds.

func vrfHop(k string) bool {
	switch strings.ToLower(k) {
	case "date", "content-length", "transfer-encoding", "server":
		return true
	}
	return false
}

func judgeC07(c *vrfCase) string {
	n := len(c.tr.ups)
	if n > c.attempts {
		return fmt.Sprintf("%d upstream requests, maximum is %d", n, c.attempts)
	}
	if n > 1 && !vrfRepeatable[strings.ToUpper(c.req.method)] {
		return fmt.Sprintf("%d upstream requests for method %s", n, c.req.method)
	}
	if c.rejected() != 0 {
		return ""
	}
	want, _ := c.attemptsExpected()
	if n > want {
		return fmt.Sprintf("%d upstream requests, %d expected: an attempt was made after a proxied response", n, want)
	}
	if n < want {
		return fmt.Sprintf("%d upstream requests, %d expected: attempts are left", n, want)
	}
	return ""
}

func judgeC08(c *vrfCase) string {
	if len(c.tr.w.whs) != 1 {
		return fmt.Sprintf("%d status lines written", len(c.tr.w.whs))
	}
	if c.tr.w.writes != 1 {
		return fmt.Sprintf("%d bodies written", c.tr.w.writes)
	}
	return ""
}

func judgeC09(c *vrfCase) string {
	want := c.rejected()
	if want == 0 {
		_, k := c.attemptsExpected()
		want = 502
		if k >= 0 {
			want = c.script[k].status
		}
	}
	if got := c.tr.w.status(); got != want {
		return fmt.Sprintf("status %d, expected %d", got, want)
	}
	return vrfGenerated(c)
}

func judgeC10(c *vrfCase) string {
	if c.tooLarge() {
		if c.tr.w.status() != 413 && vrfLegal[strings.ToUpper(c.req.method)] {
			return fmt.Sprintf("body over the limit answered %d", c.tr.w.status())
		}
		if len(c.tr.ups) > 0 {
			return "body over the limit forwarded"
		}
		return ""
	}
	if c.req.cutoff {
		if len(c.tr.ups) > 0 {
			return "incomplete body forwarded"
		}
		return ""
	}
	if n, k := c.attemptsExpected(); c.tr.w.status() == 413 && vrfLegal[strings.ToUpper(c.req.method)] && (n == 0 || k < 0 || c.script[k].status != 413) {
		return "body within the limit answered 413"
	}
	if vrfLegal[strings.ToUpper(c.req.method)] && len(c.tr.ups) == 0 {
		return "not forwarded"
	}
	for _, u := range c.tr.ups {
		if !bytes.Equal(u.body, c.req.body) {
			return fmt.Sprintf("forwarded body %s is not the body sent", vrfClip(u.body))
		}
	}
	return ""
}

func vrfCanon(h http.Header) http.Header {
	o := http.Header{}
	for _, k := range vrfHKeys(h) {
		o[http.CanonicalHeaderKey(k)] = append(o[http.CanonicalHeaderKey(k)], h[k]...)
	}
	return o
}

func vrfHKeys(h http.Header) []string {
	m := map[string]int{}
	for k := range h {
		m[k] = 1
	}
	return vrfKeys(m)
}

func judgeC11(c *vrfCase) string {
	sent := vrfCanon(c.req.header)
	for _, u := range c.tr.ups {
		got := vrfCanon(u.header)
		for k, vals := range sent {
			if vrfHop(k) || k == "X-Request-Id" {
				continue
			}
			if fmt.Sprintf("%q", got[k]) != fmt.Sprintf("%q", vals) {
				return fmt.Sprintf("request header %s: %q forwarded as %q", k, vals, got[k])
			}
		}
		for k := range got {
			if vrfHop(k) {
				return "hop header " + k + " forwarded upstream"
			}
			if _, ok := sent[k]; !ok && k != "X-Request-Id" {
				return "request header " + k + " was not sent by the client"
			}
		}
	}
	if c.rejected() != 0 || c.tr.w.snap == nil {
		return ""
	}
	down := vrfCanon(c.tr.w.snap)
	own := map[string]bool{"Server": true, "X-Request-Id": true, "Content-Encoding": true, "Content-Length": true, "Strict-Transport-Security": true, "Content-Type": true}
	_, k := c.attemptsExpected()
	if k < 0 || c.script[k].status >= 400 {
		for h := range down {
			if !own[h] {
				return "generated response carries header " + h
			}
		}
		return ""
	}
	up := vrfCanon(c.script[k].header)
	for h, vals := range up {
		if vrfHop(h) || h == "Content-Encoding" {
			continue
		}
		got := down[h]
		if own[h] && h != "Content-Type" {
			// appended after the proxy's own value
			if len(got) > len(vals) {
				got = got[len(got)-len(vals):]
			}
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", vals) {
			return fmt.Sprintf("response header %s: %q forwarded as %q", h, vals, down[h])
		}
	}
	for h, vals := range down {
		if h == "Date" || h == "Transfer-Encoding" {
			return "upstream's " + h + " header forwarded"
		}
		if h == "Server" && (len(vals) != 1 || !strings.HasPrefix(vals[0], "j8a")) {
			return fmt.Sprintf("upstream's Server header forwarded: %q", vals)
		}
		if h == "Content-Length" && len(vals) != 1 {
			return fmt.Sprintf("Content-Length copied: %q", vals)
		}
		if _, ok := up[h]; !ok && !own[h] {
			return "response header " + h + " was not sent by the upstream"
		}
	}
	return ""
}

func judgeC12(c *vrfCase) string {
	if c.tr.w.snap == nil {
		return "nothing sent"
	}
	down := vrfCanon(c.tr.w.snap)
	body := c.tr.w.body.Bytes()
	ce := down["Content-Encoding"]
	accepts := strings.Contains(c.req.header.Get("Accept-Encoding"), "gzip")
	k := -1
	if c.rejected() == 0 {
		_, k = c.attemptsExpected()
	}
	proxied := k >= 0 && c.script[k].status < 400
	if len(body) > 0 {
		enc := "identity"
		if len(ce) > 0 {
			enc = strings.ToLower(strings.Join(ce, " "))
		}
		plain, isZip := vrfUnzip(body)
		if !proxied {
			switch enc {
			case "gzip":
				if !isZip {
					return "declared gzip but the body is not"
				}
				if !accepts {
					return "gzip sent to a client that does not accept it"
				}
			case "identity":
				if isZip {
					return "gzip body declared identity"
				}
				plain = body
			default:
				return "declared " + enc
			}
			if !bytes.HasPrefix(plain, []byte("{")) {
				return "the generated body is not the encoded message"
			}
		} else {
			up := c.script[k]
			upce, foreign := "", false
			for _, x := range vrfCanon(up.header)["Content-Encoding"] {
				if x = strings.ToLower(x); x != "" {
					foreign = foreign || x != "gzip" && x != "identity"
					if !foreign {
						upce = x
					}
				}
			}
			if foreign {
				upce = strings.ToLower(strings.Join(vrfCanon(up.header)["Content-Encoding"], " "))
				if enc != upce {
					return fmt.Sprintf("upstream encoding %s declared as %s", upce, enc)
				}
				if !bytes.Equal(body, up.body) {
					return "body in foreign encoding was changed"
				}
			} else {
				content, upZip := vrfUnzip(up.body)
				if !upZip {
					if bytes.HasPrefix(up.body, gzipMagicBytes) {
						return "" // broken gzip from upstream
					}
					content = up.body
				}
				switch enc {
				case "gzip":
					if !isZip {
						return "declared gzip but the body is not"
					}
					if !accepts && upce != "gzip" {
						return "gzip sent to a client that does not accept it"
					}
				case "identity":
					if isZip && !upZip {
						return "gzip body declared identity"
					}
					plain = body
				default:
					return "declared " + enc
				}
				if !bytes.Equal(plain, content) {
					return fmt.Sprintf("body content %s is not the upstream's %s", vrfClip(plain), vrfClip(content))
				}
			}
		}
	} else if proxied && len(c.script[k].body) > 0 {
		if content, upZip := vrfUnzip(c.script[k].body); !(upZip && len(content) == 0) && !(!upZip && bytes.HasPrefix(c.script[k].body, gzipMagicBytes)) {
			return "upstream body dropped"
		}
	}
	if proxied {
		cl := down["Content-Length"]
		st := c.tr.w.status()
		m := strings.ToUpper(c.req.method)
		want := fmt.Sprint(len(body))
		if m == "CONNECT" || st == 204 || st < 200 {
			want = "0"
		} else if m == "HEAD" {
			want = "0"
			if u := c.script[k].header.Get("Content-Length"); regexp.MustCompile(`^[+-]?[0-9]+$`).MatchString(u) {
				want = u
			}
		}
		if len(cl) != 1 || cl[0] != want {
			return fmt.Sprintf("Content-Length %q, expected %s (%d bytes written)", cl, want, len(body))
		}
	}
	return ""
}

var vrfXR = regexp.MustCompile(`^XR-.+-.{8,}$`)

func judgeC19(c *vrfCase) string {
	if c.tr.w.snap == nil {
		return "nothing sent"
	}
	got := vrfCanon(c.tr.w.snap)["X-Request-Id"]
	if len(got) == 0 {
		return "no X-Request-Id in the response"
	}
	id := got[0]
	sent := c.req.header["X-Request-Id"]
	if len(sent) > 0 && sent[0] != "" {
		if id != sent[0] {
			return fmt.Sprintf("response id %q, the client sent %q", id, sent[0])
		}
	} else if id == "" {
		return "empty X-Request-Id"
	}
	for _, u := range c.tr.ups {
		x := vrfCanon(u.header)["X-Request-Id"]
		if len(x) != 1 || x[0] != id {
			return fmt.Sprintf("upstream got id %q, the client got %q", x, id)
		}
	}
	return ""
}

// the slow cases: attempts whose headers or body hang past the read timeout are abandoned.
func vrfSlowExpect(c *vrfCase) (n, status int, body string) {
	el := 0.0
	m := strings.ToUpper(c.req.method)
	for i := 0; ; i++ {
		k := i
		if k >= len(c.script) {
			k = len(c.script) - 1
		}
		u := c.script[k]
		took := u.delay.Seconds() + u.bodyWait.Seconds()
		abandoned := took > float64(c.readSecs)
		if abandoned {
			took = float64(c.readSecs)
		}
		el += took
		if el >= float64(c.rtSecs) {
			return i + 1, 504, ""
		}
		if !abandoned && !u.connErr && !u.bodyErr && u.status < 500 {
			if u.status >= 400 {
				return i + 1, u.status, ""
			}
			return i + 1, u.status, string(u.body)
		}
		if !vrfRepeatable[m] || i+1 >= c.attempts {
			if abandoned {
				return i + 1, 504, ""
			}
			return i + 1, 502, ""
		}
	}
}

func judgeSlow(c *vrfCase) string {
	n, st, body := vrfSlowExpect(c)
	if m := judgeC08(c); m != "" {
		return m
	}
	if len(c.tr.ups) != n {
		return vrfTiming + fmt.Sprintf("%d upstream requests, expected %d", len(c.tr.ups), n)
	}
	if c.tr.w.status() != st {
		return vrfTiming + fmt.Sprintf("status %d, expected %d", c.tr.w.status(), st)
	}
	if st < 400 && c.tr.w.body.String() != body {
		return vrfTiming + fmt.Sprintf("body %s, expected %q", vrfClip(c.tr.w.body.Bytes()), body)
	}
	return ""
}

func vrfSlowC07(c *vrfCase) string {
	if len(c.tr.ups) > c.attempts {
		return fmt.Sprintf("%d upstream requests, maximum is %d", len(c.tr.ups), c.attempts)
	}
	if len(c.tr.ups) > 1 && !vrfRepeatable[strings.ToUpper(c.req.method)] {
		return fmt.Sprintf("%d upstream requests for method %s", len(c.tr.ups), c.req.method)
	}
	if n, _, _ := vrfSlowExpect(c); len(c.tr.ups) > n {
		return vrfTiming + fmt.Sprintf("%d upstream requests, expected %d", len(c.tr.ups), n)
	}
	return ""
}

func vrfSlowC08(c *vrfCase) string { return judgeC08(c) }

func vrfSlowC09(c *vrfCase) string {
	if _, st, _ := vrfSlowExpect(c); c.tr.w.status() != st {
		return vrfTiming + fmt.Sprintf("status %d, expected %d", c.tr.w.status(), st)
	}
	return vrfGenerated(c)
}

// vrfGenerated: a body of the proxy's own carries the status and a message.
func vrfGenerated(c *vrfCase) string {
	st := c.tr.w.status()
	if st < 400 {
		return ""
	}
	body := c.tr.w.body.Bytes()
	if p, ok := vrfUnzip(body); ok {
		body = p
	}
	var b struct {
		Code    int
		Message string
	}
	if err := json.Unmarshal(body, &b); err != nil {
		return fmt.Sprintf("the body of a generated %d is not JSON: %v", st, err)
	}
	if b.Code != st {
		return fmt.Sprintf("the body of a generated %d carries code %d", st, b.Code)
	}
	if b.Message == "" {
		return fmt.Sprintf("the body of a generated %d carries no message", st)
	}
	return ""
}

func vrfCurvesC05(alg string) elliptic.Curve {
	switch alg {
	case "ES384":
		return elliptic.P384()
	case "ES512":
		return elliptic.P521()
	}
	return elliptic.P256()
}

func vrfPemPub05(k *rsa.PrivateKey) string {
	b, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
}

// judgeAbout: the about page's body decodes as its headers say, to JSON, and is zipped only for clients that take gzip.
func judgeAbout(c *vrfCase) string {
	if c.tr.w.snap == nil {
		return "nothing sent"
	}
	h := vrfCanon(c.tr.w.snap)
	b := c.tr.w.body.Bytes()
	if cl := h["Content-Length"]; len(cl) != 1 || cl[0] != strconv.Itoa(len(b)) {
		return fmt.Sprintf("Content-Length %v, %d bytes sent", cl, len(b))
	}
	ce := h["Content-Encoding"]
	switch {
	case len(ce) == 1 && ce[0] == "gzip":
		if !strings.Contains(strings.Join(c.req.header["Accept-Encoding"], " "), "gzip") {
			return "gzip to a client that does not accept it"
		}
		z, ok := vrfUnzip(b)
		if !ok {
			return "Content-Encoding gzip, the body is not gzip"
		}
		b = z
	case len(ce) == 0 || len(ce) == 1 && ce[0] == "identity":
	default:
		return fmt.Sprintf("Content-Encoding %v", ce)
	}
	if !json.Valid(b) {
		return "the body does not decode to JSON"
	}
	return ""
}
