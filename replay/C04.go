package j8a

import (
	"fmt"
	"math"
	"math/rand"
	"net/http"
	"testing"
	"time"
)

func TestVerifC04(t *testing.T) {
	vrfRun(t, "C04", func(v *vrf) {
		pols := []Policy{
			{{"a", 1}},
			{{"a", 0.5}, {"b", 0.5}},
			{{"a", 0.8}, {"b", 0.2}},
			{{"a", 0.2}, {"b", 0.8}},
			{{"b", 0.3}, {"z", 0}, {"a", 0.7}},
			{{"z", 0}, {"a", 1}},
			{{"a", 0.1}, {"b", 0.2}, {"c", 0.3}, {"d", 0.4}},
			{{"d", 0.4}, {"a", 0.1}, {"c", 0.3}, {"b", 0.2}},
			{{"a", 0.25}, {"b", 0.25}, {"c", 0.5}},
			{{"a", 0.6}, {"b", 0.05}, {"c", 0.35}},
			{{"x", 0.01}, {"y", 0.99}},
			{{"a", 0.3}},
			{},
		}
		for i := 0; i < 12; i++ {
			var p Policy
			left := 1.0
			n := 1 + v.rnd.Intn(6)
			for j := 0; j < n; j++ {
				w := left * v.rnd.Float64()
				if j == n-1 {
					w = left
				}
				left -= w
				p = append(p, LabelWeight{fmt.Sprintf("l%d", j), w})
			}
			pols = append(pols, p)
		}
		rand.Seed(99)
		for _, p := range pols {
			p := p
			v.run("frequencies", fmt.Sprint(p), func() {
				keep := append(Policy{}, p...)
				n := v.N(40000)
				got := map[string]int{}
				for i := 0; i < n; i++ {
					got[p.resolveLabel()]++
				}
				if fmt.Sprint(keep) != fmt.Sprint(p) {
					v.fail("policy %v was changed to %v", keep, p)
				}
				want := map[string]float64{}
				sum := 0.0
				for _, lw := range keep {
					want[lw.Label] += lw.Weight
					sum += lw.Weight
				}
				if sum < 0.9999999 {
					want["default"] += 1 - sum
				}
				for l, k := range got {
					if want[l] < 1e-9 {
						v.fail("policy %v: label %q of weight 0 (or not in the policy) drawn %d times of %d", keep, l, k, n)
					}
				}
				for l, w := range want {
					sd := math.Sqrt(w * (1 - w) * float64(n))
					if d := math.Abs(float64(got[l]) - w*float64(n)); d > 6*sd+2 {
						v.fail("policy %v: label %q drawn %d times of %d, expected %.0f", keep, l, got[l], n, w*float64(n))
					}
				}
			})
		}
		// draws must stay independent when responses are generated in between
		v.run("draws between generated responses", "policy a 0.5 b 0.5", func() {
			cfg := vrfConfig(1, 64)
			cfg.Routes = Routes{{Path: "/none", Resource: "none"}, {Path: "/p", Resource: "main", Policy: "p"}}
			cfg.Policies["p"] = Policy{{"a", 0.5}, {"b", 0.5}}
			cfg.Resources["main"] = []ResourceMapping{
				{Labels: []string{"a"}, URL: URL{Scheme: "http", Host: "a.example", Port: 80}},
				{Labels: []string{"b"}, URL: URL{Scheme: "http", Host: "b.example", Port: 80}}}
			vrfBoot(cfg)
			cl := newVrfClient()
			cl.all = []vrfUp{{status: 200}}
			httpClient = cl
			n, a := 4000, 0
			for i := 0; i < n; i++ {
				vrfServe(vrfReq{method: "GET", uri: "/none", header: http.Header{}}, newVrfClient(), "")
				cl.every = nil
				tr := vrfServe(vrfReq{method: "GET", uri: "/p", header: http.Header{}}, cl, "")
				if len(tr.ups) == 1 && tr.ups[0].u.Host == "a.example:80" {
					a++
				}
			}
			if math.Abs(float64(a)-float64(n)/2) > 6*math.Sqrt(float64(n)/4) {
				v.fail("label a of weight 0.5 drawn %d times of %d when error responses are served in between", a, n)
			}
			// a generated response must not fix the next draw
			seen := map[string]int{}
			t0 := time.Now()
			for i := 0; i < 300; i++ {
				rand.Seed(int64(i))
				vrfServe(vrfReq{method: "GET", uri: "/none", header: http.Header{}}, newVrfClient(), "")
				x := rand.Float64()
				rand.Seed(int64(i))
				r := rand.New(rand.NewSource(int64(i)))
				ok := false
				for k := 0; k < 50; k++ {
					if r.Float64() == x {
						ok = true
					}
				}
				if !ok {
					seen["reseeded"]++
				}
			}
			if seen["reseeded"] > 150 && time.Since(t0) >= 0 {
				v.fail("serving a generated response re-seeds the generator that draws labels (%d of 300)", seen["reseeded"])
			}
		})
	})
}
