package j8a

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
)

func TestVerifC14(t *testing.T) {
	vrfRun(t, "C14", func(v *vrf) {
		num := func() int {
			return []int{0, 0, 1, 2, 3, 60, 120, 121, 240, 241, 32768, 65535, -1}[v.rnd.Intn(13)]
		}
		clone := func(c *Config) *Config {
			b, _ := json.Marshal(c)
			o := new(Config)
			json.Unmarshal(b, o)
			return o
		}
		dir, err := os.MkdirTemp("", "vrfc14")
		if err != nil {
			v.fail("no scratch directory: %v", err)
			return
		}
		defer os.RemoveAll(dir)
		for i := 0; i < v.N(3000); i++ {
			c := &Config{}
			d, u := &c.Connection.Downstream, &c.Connection.Upstream
			d.ReadTimeoutSeconds, d.RoundTripTimeoutSeconds, d.IdleTimeoutSeconds = num(), num(), num()
			d.Port = num()
			d.MaxBodyBytes = []int64{0, 1, 65535, 2097152, 2097153, 1 << 40}[v.rnd.Intn(6)]
			d.Mode = v.pick("", "HTTP", "TLS", "tls", "http", "Tls", "tLS")
			d.Cert, d.Key = v.pick("", "cert"), v.pick("", "key")
			u.SocketTimeoutSeconds, u.ReadTimeoutSeconds, u.IdleTimeoutSeconds, u.PoolSize, u.MaxAttempts = num(), num(), num(), num(), num()
			u.TlsInsecureSkipVerify = v.rnd.Intn(2) == 0
			if i == 0 {
				c.Connection = Connection{}
			}
			for n := v.rnd.Intn(4); n > 0; n-- {
				c.Routes = append(c.Routes, Route{Path: v.pick("/a", "/b", "/abc"), Resource: v.pick("r1", "r2"), Policy: v.pick("", "p", "default"), Transform: v.pick("", "/t")})
			}
			if v.rnd.Intn(4) > 0 {
				c.Policies = map[string]Policy{"p": {{"a", 0.3}, {"b", 0.7}}}
				if v.rnd.Intn(2) == 0 {
					c.Policies["default"] = Policy{{"mine", 1}}
				}
			}
			if v.rnd.Intn(4) > 0 {
				c.Resources = map[string][]ResourceMapping{}
				for _, r := range []string{"r1", "r2", "r3"} {
					for n := v.rnd.Intn(4); n > 0; n-- {
						c.Resources[r] = append(c.Resources[r], ResourceMapping{Name: v.pick("", "wrong", "r1"), Labels: []string{v.pick("x", "y")}, URL: URL{Scheme: v.pick("", "http", "https", "https://", "http://", "ftp"), Host: v.pick("a", "b"), Port: uint16(v.rnd.Intn(65536))}})
					}
				}
				if v.rnd.Intn(3) == 0 {
					c.Resources["empty"] = nil
				}
			}
			if v.rnd.Intn(2) == 0 {
				c.Jwt = map[string]*Jwt{"j": {Name: "j", Alg: "HS256", Key: "k", AcceptableSkewSeconds: "5"}}
			}
			in := clone(c)
			js, _ := json.Marshal(in)
			if i < v.N(300) && len(c.Routes) > 0 {
				vrfReadC14(v, c, dir)
			}
			v.run("configurations", string(js), func() {
				check := func(what string, got, want interface{}) {
					if !reflect.DeepEqual(got, want) {
						v.fail("%s is %v, expected %v; configuration %s", what, got, want, js)
					}
				}
				out := c.reApplyResourceSchemes().reApplyResourceNames().addDefaultPolicy().setDefaultUpstreamParams().setDefaultDownstreamParams()
				def := func(x, d int) int {
					if x == 0 {
						return d
					}
					return x
				}
				od, ou, id, iu := out.Connection.Downstream, out.Connection.Upstream, in.Connection.Downstream, in.Connection.Upstream
				check("downstream read timeout", od.ReadTimeoutSeconds, def(id.ReadTimeoutSeconds, 120))
				check("round trip timeout", od.RoundTripTimeoutSeconds, def(id.RoundTripTimeoutSeconds, 240))
				check("downstream idle timeout", od.IdleTimeoutSeconds, def(id.IdleTimeoutSeconds, 120))
				mb := id.MaxBodyBytes
				if mb == 0 {
					mb = 2097152
				}
				check("max body bytes", od.MaxBodyBytes, mb)
				mode := strings.ToUpper(id.Mode)
				if mode == "" {
					mode = "HTTP"
				}
				check("mode", strings.ToUpper(od.Mode), mode)
				check("TLS mode", out.isTLSMode(), mode == "TLS")
				port := id.Port
				if port == 0 {
					port = 8080
					if mode == "TLS" {
						port = 443
					}
				}
				check("port", od.Port, port)
				check("certificate", []string{od.Cert, od.Key}, []string{id.Cert, id.Key})
				check("socket timeout", ou.SocketTimeoutSeconds, def(iu.SocketTimeoutSeconds, 3))
				check("upstream read timeout", ou.ReadTimeoutSeconds, def(iu.ReadTimeoutSeconds, 120))
				check("upstream idle timeout", ou.IdleTimeoutSeconds, def(iu.IdleTimeoutSeconds, 120))
				check("pool size", ou.PoolSize, def(iu.PoolSize, 32768))
				check("max attempts", ou.MaxAttempts, def(iu.MaxAttempts, 1))
				check("skip verify", ou.TlsInsecureSkipVerify, iu.TlsInsecureSkipVerify)
				check("number of routes", len(out.Routes), len(in.Routes))
				for k := range in.Routes {
					check("route", out.Routes[k], in.Routes[k])
				}
				check("default policy", out.Policies["default"], Policy{{"default", 1}})
				for k, p := range in.Policies {
					if k != "default" {
						check("policy "+k, out.Policies[k], p)
					}
				}
				check("resources", len(out.Resources), len(in.Resources))
				for k, rms := range in.Resources {
					check("resource "+k, len(out.Resources[k]), len(rms))
					for i, rm := range rms {
						rm.Name = k
						switch {
						case rm.URL.Scheme == "":
							rm.URL.Scheme = "http"
						case strings.Contains(rm.URL.Scheme, "https"):
							rm.URL.Scheme = "https"
						case strings.Contains(rm.URL.Scheme, "http"):
							rm.URL.Scheme = "http"
						}
						check(fmt.Sprintf("resource %s[%d]", k, i), out.Resources[k][i], rm)
					}
				}
				check("jwt", len(out.Jwt), len(in.Jwt))
				if in.Jwt != nil {
					check("jwt", out.Jwt["j"].Alg+out.Jwt["j"].Key+out.Jwt["j"].AcceptableSkewSeconds, "HS256k5")
				}
			})
		}
	})
}

// vrfReadC14 writes a configuration under the documented names and has the server read it.
func vrfReadC14(v *vrf, c *Config, dir string) {
	type m = map[string]interface{}
	set := func(o m, k string, x interface{}) {
		if !reflect.ValueOf(x).IsZero() {
			o[k] = x
		}
	}
	d, u := m{}, m{}
	id, iu := c.Connection.Downstream, c.Connection.Upstream
	set(d, "readTimeoutSeconds", id.ReadTimeoutSeconds)
	set(d, "roundTripTimeoutSeconds", id.RoundTripTimeoutSeconds)
	set(d, "idleTimeoutSeconds", id.IdleTimeoutSeconds)
	set(d, "maxBodyBytes", id.MaxBodyBytes)
	set(d, "mode", id.Mode)
	set(d, "port", id.Port)
	set(d, "cert", id.Cert)
	set(d, "key", id.Key)
	set(u, "poolSize", iu.PoolSize)
	set(u, "idleTimeoutSeconds", iu.IdleTimeoutSeconds)
	set(u, "socketTimeoutSeconds", iu.SocketTimeoutSeconds)
	set(u, "readTimeoutSeconds", iu.ReadTimeoutSeconds)
	set(u, "maxAttempts", iu.MaxAttempts)
	set(u, "tlsInsecureSkipVerify", iu.TlsInsecureSkipVerify)
	var routes []m
	for _, r := range c.Routes {
		o := m{}
		set(o, "path", r.Path)
		set(o, "resource", r.Resource)
		set(o, "policy", r.Policy)
		set(o, "transform", r.Transform)
		routes = append(routes, o)
	}
	pols, ress, jwts := m{}, m{}, m{}
	for k, p := range c.Policies {
		var es []m
		for _, e := range p {
			es = append(es, m{"label": e.Label, "weight": e.Weight})
		}
		pols[k] = es
	}
	for k, r := range c.Resources {
		var es []m
		for _, e := range r {
			url := m{}
			set(url, "scheme", e.URL.Scheme)
			set(url, "host", e.URL.Host)
			set(url, "port", e.URL.Port)
			o := m{"labels": e.Labels, "url": url}
			set(o, "name", e.Name)
			es = append(es, o)
		}
		ress[k] = es
	}
	for k, j := range c.Jwt {
		jwts[k] = m{"alg": j.Alg, "key": j.Key, "acceptableSkewSeconds": j.AcceptableSkewSeconds}
	}
	b, _ := json.Marshal(m{"routes": routes, "policies": pols, "resources": ress, "jwt": jwts, "connection": m{"downstream": d, "upstream": u}})
	v.run("configuration files", string(b), func() {
		f := filepath.Join(dir, "given.yml")
		if err := os.WriteFile(f, b, 0644); err != nil {
			v.line("no file: %v", err)
			return
		}
		was := ConfigFile
		ConfigFile = f
		defer func() { ConfigFile = was }()
		out := new(Config).load()
		check := func(what string, got, want interface{}) {
			if !reflect.DeepEqual(got, want) {
				v.fail("%s is read as %v, set to %v; file %s", what, got, want, b)
			}
		}
		check("connection", out.Connection, c.Connection)
		check("number of routes", len(out.Routes), len(c.Routes))
		for i, r := range c.Routes {
			o := out.Routes[i]
			check("route", []string{o.Path, o.Resource, o.Policy, o.Transform}, []string{r.Path, r.Resource, r.Policy, r.Transform})
		}
		for k, p := range c.Policies {
			check("policy "+k, out.Policies[k], p)
		}
		for k, r := range c.Resources {
			check("resource "+k, len(out.Resources[k]), len(r))
			for i, e := range r {
				check("resource "+k, out.Resources[k][i], e)
			}
		}
		for k, j := range c.Jwt {
			o := out.Jwt[k]
			check("jwt", []string{o.Alg, o.Key, o.AcceptableSkewSeconds}, []string{j.Alg, j.Key, j.AcceptableSkewSeconds})
		}
	})
}
