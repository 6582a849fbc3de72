package j8a

import (
	"fmt"
	"net/http"
	"testing"
)

func TestVerifC03(t *testing.T) {
	vrfRun(t, "C03", func(v *vrf) {
		labels := []string{"green", "blue", "red", "default", ""}
		for i := 0; i < v.N(1200); i++ {
			cfg := vrfConfig(1, 64)
			var rms []ResourceMapping
			n := v.rnd.Intn(5)
			for j := 0; j < n; j++ {
				rm := ResourceMapping{URL: URL{Scheme: "http", Host: fmt.Sprintf("h%d.example", j), Port: 80}}
				for k := v.rnd.Intn(3); k > 0; k-- {
					rm.Labels = append(rm.Labels, labels[v.rnd.Intn(len(labels))])
				}
				rms = append(rms, rm)
			}
			cfg.Resources = map[string][]ResourceMapping{"res": rms, "other": {{URL: URL{Scheme: "http", Host: "wrong.example", Port: 80}, Labels: labels}}}
			if v.rnd.Intn(8) == 0 {
				delete(cfg.Resources, "res")
				rms = nil
			}
			pol := v.pick("", "p", "p", "default", "missing", "two")
			lab := labels[v.rnd.Intn(len(labels))]
			cfg.Policies["p"] = Policy{{Label: lab, Weight: 1}}
			l2 := labels[v.rnd.Intn(len(labels))]
			cfg.Policies["two"] = Policy{{Label: lab, Weight: 0.5}, {Label: l2, Weight: 0.5}}
			cfg.Routes = Routes{{Path: "/", Resource: "res", Policy: pol}}
			can := map[string]bool{lab: true}
			switch pol {
			case "default", "missing":
				can = map[string]bool{"default": true}
			case "two":
				can = map[string]bool{lab: true, l2: true}
			}
			c := &vrfCase{req: vrfReq{method: "GET", uri: "/x", header: http.Header{}}, script: []vrfUp{{status: 200, body: []byte("x")}}, attempts: 1, max: 64, cfg: cfg}
			vrfOne(v, "mapping", c, func(c *vrfCase) string {
				ok := map[string]bool{}
				none := false
				first := func(l string) string {
					for j, rm := range rms {
						for _, x := range rm.Labels {
							if x == l {
								return fmt.Sprintf("h%d.example:80", j)
							}
						}
					}
					return ""
				}
				if pol == "" {
					if len(rms) > 0 {
						ok["h0.example:80"] = true
					} else {
						none = true
					}
				} else {
					for l := range can {
						if h := first(l); h != "" {
							ok[h] = true
						} else {
							none = true
						}
					}
				}
				d := fmt.Sprintf("policy %q labels %v resource %+v", pol, can, rms)
				if len(c.tr.ups) == 0 {
					if !none || c.tr.w.status() != 503 {
						return fmt.Sprintf("%s: status %d without upstream request, expected %v", d, c.tr.w.status(), ok)
					}
					return ""
				}
				if len(c.tr.ups) != 1 || !ok[c.tr.ups[0].u.Host] {
					return fmt.Sprintf("%s: sent to %s, expected %v", d, c.tr.ups[0].u.Host, ok)
				}
				return ""
			})
		}
	})
}
