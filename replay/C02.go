package j8a

import (
	"net/http"
	"net/url"
	"regexp"
	"strings"
	"testing"
)

func TestVerifC02(t *testing.T) {
	vrfRun(t, "C02", func(v *vrf) {
		uris := []string{"/", "/a", "/a/b?c=d", "/a@evil.example/x", "/a.evil.example/", "/a:80/x", "//evil.example/a", "/a//evil", "/a?u=http://evil/", "/ab", "/a%2F..", "/a/a/a", "/x/a/b", "/b/a", "/.a", "/@evil", "/a#f", "/a;b=c", "/aa", "/a\\evil", "http://evil.example/a/b", "http://evil.example", "/a/%20x", "/a?x=a/b&y=/a", "/a?", "/?", "/x?", "/a??", "/a?a;b", "/a?%zz", "/a?x=%2F+y", "/a%3Fb", "/a/?", "/a%2520", "/a%C3%A9", "/a;v=1?x", "/a//b//", "/a/./b", "/a/b/../c?d", "/a%61", "/a%2f", "/a+b", "/a?&&", "/a?=", "/a*b'(c)!"}
		paths := []string{"/", "/a", "/a/", "/a/b", "/x", "a", "/.", "/b|/a"}
		trans := []string{"", "/", "/t", "/t/", "/t@evil", "/a", "/t/u", "/a/a"}
		for i := 0; i < v.N(2000); i++ {
			cfg := vrfConfig(1+v.rnd.Intn(2), 64)
			path, tr := paths[v.rnd.Intn(len(paths))], trans[v.rnd.Intn(len(trans))]
			cfg.Routes = Routes{{Path: path, Transform: tr, Resource: "main"}}
			scheme := v.pick("http", "https", "")
			hp := URL{Scheme: scheme, Host: v.pick("up.example", "10.0.0.1", "localhost"), Port: uint16(1 + v.rnd.Intn(65535))}
			cfg.Resources["main"] = []ResourceMapping{{URL: hp}}
			uri := uris[v.rnd.Intn(len(uris))]
			if v.rnd.Intn(3) == 0 {
				uri = path + v.pick("", "x", ".evil.example", "@evil.example", ":1/", "?q", "/"+v.pick("a", "b", "..", "@")) + v.pick("", "/c", "?d=e", "?")
				if !strings.HasPrefix(uri, "/") {
					uri = "/" + uri
				}
			}
			c := &vrfCase{req: vrfReq{method: "GET", uri: uri, header: http.Header{}}, script: []vrfUp{{status: 200, body: []byte("x")}}, attempts: 1, max: 64, cfg: cfg}
			vrfOne(v, "target", c, func(c *vrfCase) string {
				rt := Runner.Routes[0]
				res := Runner.Resources["main"][0].URL
				base := res.Scheme + "://" + hp.Host + ":" + itoaVrf(int(hp.Port))
				for _, u := range c.tr.ups {
					if u.u.Scheme != res.Scheme || u.u.Host != hp.Host+":"+itoaVrf(int(hp.Port)) || u.u.User != nil || (u.host != "" && u.host != u.u.Host) {
						return "route " + path + " transform " + tr + ": request left the authority " + base + ": " + u.url
					}
				}
				matched := regexp.MustCompile("^" + rt.Path).MatchString(uri)
				if !matched {
					return ""
				}
				parsed, err := url.ParseRequestURI(uri)
				if err != nil {
					return ""
				}
				want := parsed.RequestURI()
				if tr != "" && strings.HasPrefix(want, rt.Path) {
					x := tr
					if x == "/" {
						x = ""
					}
					want = x + want[len(rt.Path):]
				}
				if !strings.HasPrefix(want, "/") {
					want = "/" + want
				}
				wu, err := url.Parse(base + want)
				if err != nil || len(c.tr.ups) == 0 {
					return ""
				}
				if got := c.tr.ups[0].u.RequestURI(); got != wu.RequestURI() {
					return "route " + path + " transform " + tr + ": forwarded as " + got + ", expected " + wu.RequestURI()
				}
				return ""
			})
		}
	})
}

func itoaVrf(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}
