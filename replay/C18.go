package j8a

import (
	"fmt"
	"testing"
)

func TestVerifC18(t *testing.T) {
	vrfRun(t, "C18", func(v *vrf) {
		for i := 0; i < v.N(600); i++ {
			start := v.rnd.Intn(historyMaxSamples + 4)
			n := v.rnd.Intn(60)
			v.run("histories", fmt.Sprintf("start %d appends %d", start, n), func() {
				var h samples
				if v.rnd.Intn(2) == 0 {
					h = make(samples, 0, start+v.rnd.Intn(5))
				}
				var all []sample
				next := func() sample {
					s := sample{pid: int32(1 + len(all)), rssBytes: uint64([]int{1, 5, 9, 10, 19, 20, 21, 40, 1000}[v.rnd.Intn(9)])}
					all = append(all, s)
					return s
				}
				for j := 0; j < start; j++ {
					h = append(h, next())
				}
				for j := 0; j < n; j++ {
					was := len(h)
					h.append(next())
					want := was + 1
					if was >= historyMaxSamples {
						want = was
					}
					if len(h) > want || (was <= historyMaxSamples && len(h) != want) {
						v.fail("start %d: size %d after append to %d", start, len(h), was)
					}
					for k := range h {
						if h[k] != all[len(all)-len(h)+k] {
							v.fail("start %d after %d appends: entry %d is sample %d, expected %d", start, j+1, k, h[k].pid, all[len(all)-len(h)+k].pid)
							return
						}
					}
					rates := h.log()
					if len(rates) != len(h) {
						v.fail("%d rates for %d samples", len(rates), len(h))
						return
					}
					for k := range h {
						w := float64(h[k].rssBytes) / float64(h[0].rssBytes)
						if rates[k].v != w || rates[k].high != (w >= 2) {
							v.fail("rss %d against oldest %d: rate %+v", h[k].rssBytes, h[0].rssBytes, rates[k])
						}
					}
				}
			})
		}
		v.run("boundary", "twice", func() {
			h := samples{{pid: 1, rssBytes: 10}, {pid: 2, rssBytes: 20}, {pid: 3, rssBytes: 19}, {pid: 4, rssBytes: 21}, {pid: 5, rssBytes: 5}}
			r := h.log()
			if r[0].high || !r[1].high || r[2].high || !r[3].high || r[4].high {
				v.fail("rates for 10 20 19 21 5: %+v", r)
			}
			if r := (&samples{}).log(); len(r) != 0 {
				v.fail("rates of an empty history: %v", r)
			}
		})
	})
}
