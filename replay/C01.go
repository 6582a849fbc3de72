package j8a

import (
	"fmt"
	"net/http"
	"regexp"
	"strings"
	"testing"
)

func TestVerifC01(t *testing.T) {
	vrfRun(t, "C01", func(v *vrf) {
		pool := []string{"/", "/a", "/ab", "/abc", "/a/b", "/a/b/c", "a", "ab/", "/a.c", "/[ab]c", "/x|/y", "x", "/(a|b)/", "/a+", "/A", "b", "/b/", "/about", "//", "/a$", "/a/.*"}
		uris := []string{"/", "/a", "/ab", "/abc", "/abcd", "/a/b", "/a/b/c?d=/x", "/ac", "/bc", "/xa", "/x", "/y", "/q/a", "/zz/ab", "/A", "/b/x", "//a", "/aa", "/about", "/?/a", "/%61", "http://h/a", "/c"}
		for i := 0; i < v.N(800); i++ {
			n := 1 + v.rnd.Intn(5)
			cfg := vrfConfig(1, 64)
			cfg.Routes = nil
			var paths []string
			for j := 0; j < n; j++ {
				p := pool[v.rnd.Intn(len(pool))]
				paths = append(paths, p)
				res := fmt.Sprintf("r%d", j)
				cfg.Routes = append(cfg.Routes, Route{Path: p, Resource: res})
				cfg.Resources[res] = []ResourceMapping{{URL: URL{Scheme: "http", Host: res + ".example", Port: 80}}}
			}
			uri := uris[v.rnd.Intn(len(uris))]
			c := &vrfCase{req: vrfReq{method: "GET", uri: uri, header: http.Header{}}, script: []vrfUp{{status: 200, body: []byte("x")}}, attempts: 1, max: 64, cfg: cfg}
			vrfOne(v, "routes", c, func(c *vrfCase) string {
				best := -1
				ok := map[string]bool{}
				for j, p := range paths {
					if !strings.HasPrefix(p, "/") {
						p = "/" + p
					}
					if !regexp.MustCompile("^" + p).MatchString(uri) {
						continue
					}
					if len(p) > best {
						best = len(p)
						ok = map[string]bool{}
					}
					if len(p) == best {
						ok[fmt.Sprintf("r%d.example:80", j)] = true
					}
				}
				if best < 0 {
					if c.tr.w.status() != 404 || len(c.tr.ups) > 0 {
						return fmt.Sprintf("routes %q uri %s: no route matches, but status %d and %d upstream requests", paths, uri, c.tr.w.status(), len(c.tr.ups))
					}
					return ""
				}
				if len(c.tr.ups) != 1 || !ok[c.tr.ups[0].u.Host] {
					return fmt.Sprintf("routes %q uri %s: expected one of %v", paths, uri, ok)
				}
				return ""
			})
		}
	})
}
