package j8a

import (
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"
)

func TestVerifC17(t *testing.T) {
	vrfRun(t, "C17", func(v *vrf) {
		now := time.Now()
		mk := func(hours int, ca bool) *x509.Certificate {
			return &x509.Certificate{NotBefore: now.Add(-time.Duration(v.rnd.Intn(10000)) * time.Hour), NotAfter: now.Add(time.Duration(hours)*time.Hour + time.Duration(v.rnd.Intn(3000))*time.Second), IsCA: ca}
		}
		for i := 0; i < v.N(1500); i++ {
			var chain []*x509.Certificate
			var d []string
			for n := 1 + v.rnd.Intn(6); n > 0; n-- {
				h := []int{-100, -1, 1, 5, 100, 10000, 800000, 100, 24}[v.rnd.Intn(9)]
				chain = append(chain, mk(h, v.rnd.Intn(2) == 0))
				d = append(d, fmt.Sprint(h, "h"))
			}
			v.run("chains", strings.Join(d, " "), func() {
				links := parseTlsLinks(chain)
				if len(links) != len(chain) {
					v.fail("remaining %v: %d links for %d certificates", d, len(links), len(chain))
					return
				}
				marked := 0
				min := chain[0].NotAfter
				for _, c := range chain {
					if c.NotAfter.Before(min) {
						min = c.NotAfter
					}
				}
				for i, l := range links {
					c := chain[i]
					if l.cert != c || !l.issued.Equal(c.NotBefore) || l.isCA != c.IsCA || l.totalValidity != PDuration(c.NotAfter.Sub(c.NotBefore)) {
						v.fail("remaining %v: link %d does not describe certificate %d", d, i, i)
					}
					if x := time.Until(c.NotAfter) - time.Duration(l.remainingValidity); x > time.Second || x < -5*time.Second {
						v.fail("remaining %v: link %d has remaining validity %v", d, i, time.Duration(l.remainingValidity))
					}
					if x := time.Until(c.NotBefore.Add(398*24*time.Hour)) - time.Duration(l.browserValidity); x > time.Second || x < -5*time.Second {
						v.fail("remaining %v: link %d has browser validity %v", d, i, time.Duration(l.browserValidity))
					}
					if l.earliestExpiry {
						marked++
						if c.NotAfter.After(min) {
							v.fail("remaining %v: certificate %d is marked as expiring first", d, i)
						}
					}
				}
				if marked != 1 {
					v.fail("remaining %v: %d certificates marked as expiring first", d, marked)
				}
			})
		}
		for i := 0; i < v.N(500); i++ {
			b := v.bytes(v.rnd.Intn(20))
			n := new(big.Int).SetBytes(b)
			v.run("serials", n.String(), func() {
				s := formatSerial(n)
				x, ok := new(big.Int).SetString(strings.Replace(s, "-", "", -1), 16)
				if !ok || x.Cmp(n) != 0 {
					v.fail("serial %X printed as %s", n, s)
				}
				for _, p := range strings.Split(s, "-") {
					if len(p) != 2 || p != strings.ToUpper(p) {
						v.fail("serial %X printed as %s", n, s)
					}
				}
			})
		}
		far := now.Add(9000 * time.Hour)
		rootA, ka, rootAb := vrfCert("rootA", true, nil, nil, now.Add(-time.Hour), far, big.NewInt(1))
		inter, ki, interb := vrfCert("inter", true, rootA, ka, now.Add(-time.Hour), now.Add(50*time.Hour), big.NewInt(2))
		leaf, _, leafb := vrfCert("leaf", false, inter, ki, now.Add(-time.Hour), now.Add(100*time.Hour), big.NewInt(3), "x.example")
		selfleaf, _, selfb := vrfCert("self", false, nil, nil, now.Add(-time.Hour), far, big.NewInt(4), "x.example")
		_, _, expb := vrfCert("exp", false, inter, ki, now.Add(-9*time.Hour), now.Add(-time.Hour), big.NewInt(5), "x.example")
		rootB, kb, _ := vrfCert("rootB", true, nil, nil, now.Add(-time.Hour), far, big.NewInt(6))
		_, _, strangerb := vrfCert("stranger", false, rootB, kb, now.Add(-time.Hour), far, big.NewInt(7), "x.example")
		_, _, nodnsb := vrfCert("nodns", false, inter, ki, now.Add(-time.Hour), far, big.NewInt(8))
		named := map[*[]byte]string{&rootAb: "root", &interb: "inter", &leafb: "leaf", &selfb: "self"}
		_ = named
		subj := func(p *x509.CertPool) string { return fmt.Sprintf("%q", p.Subjects()) }
		pools := []struct {
			name  string
			chain [][]byte
			in    []*x509.Certificate
			ro    []*x509.Certificate
		}{
			{"leaf inter root", [][]byte{leafb, interb, rootAb}, []*x509.Certificate{inter}, []*x509.Certificate{rootA}},
			{"leaf root inter", [][]byte{leafb, rootAb, interb}, []*x509.Certificate{inter}, []*x509.Certificate{rootA}},
			{"leaf", [][]byte{leafb}, nil, nil},
			{"leaf inter", [][]byte{leafb, interb}, []*x509.Certificate{inter}, nil},
			{"self", [][]byte{selfb}, nil, nil},
			{"leaf junk root", [][]byte{leafb, []byte("junk"), rootAb}, nil, []*x509.Certificate{rootA}},
		}
		for _, p := range pools {
			p := p
			v.run("pools", p.name, func() {
				in, ro := splitCertPools(tls.Certificate{Certificate: p.chain})
				wi, wr := x509.NewCertPool(), x509.NewCertPool()
				for _, c := range p.in {
					wi.AddCert(c)
				}
				for _, c := range p.ro {
					wr.AddCert(c)
				}
				if subj(in) != subj(wi) || subj(ro) != subj(wr) {
					v.fail("chain %s: intermediates %s roots %s", p.name, subj(in), subj(ro))
				}
			})
		}
		chains := []struct {
			name  string
			chain [][]byte
			ok    bool
		}{
			{"leaf inter root", [][]byte{leafb, interb, rootAb}, true},
			{"leaf root inter", [][]byte{leafb, rootAb, interb}, true},
			{"leaf inter", [][]byte{leafb, interb}, false},
			{"leaf root", [][]byte{leafb, rootAb}, false},
			{"leaf", [][]byte{leafb}, false},
			{"self-signed leaf", [][]byte{selfb}, false},
			{"expired inter root", [][]byte{expb, interb, rootAb}, false},
			{"stranger inter root", [][]byte{strangerb, interb, rootAb}, false},
			{"no dns name inter root", [][]byte{nodnsb, interb, rootAb}, false},
			{"junk", [][]byte{[]byte("junk")}, false},
		}
		for _, c := range chains {
			c := c
			v.run("verification", c.name, func() {
				links, err := checkCertChain(tls.Certificate{Certificate: c.chain})
				if (err == nil) != c.ok {
					v.fail("chain %s: error %v", c.name, err)
				}
				if c.ok && (len(links) != 3 || links[0].cert.Subject.CommonName != "leaf" || !links[1].earliestExpiry) {
					v.fail("chain %s: links %+v", c.name, links)
				}
				if !c.ok && len(links) > 0 {
					v.fail("chain %s: reported although unverified", c.name)
				}
			})
		}
		_, _ = leaf, selfleaf
	})
}
