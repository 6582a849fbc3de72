package j8a

import (
	"bytes"
	"compress/gzip"
	"io"
	"sync"
	"testing"
)

func TestVerifC13(t *testing.T) {
	vrfRun(t, "C13", func(v *vrf) {
		inputs := [][]byte{{}, {0}, []byte("a"), bytes.Repeat([]byte("ab"), 40000), v.bytes(70000), []byte("{}"), gzipMagicBytes}
		for i := 0; i < v.N(300); i++ {
			n := v.rnd.Intn(3000)
			if i%7 == 0 {
				n = v.rnd.Intn(200000)
			}
			inputs = append(inputs, v.bytes(n))
		}
		for _, in := range inputs {
			in := in
			v.run("round trip", vrfClip(in), func() {
				keep := append([]byte{}, in...)
				z := Gzip(in)
				if !bytes.Equal(in, keep) {
					v.fail("Gzip changed its input %s", vrfClip(keep))
				}
				r, err := gzip.NewReader(bytes.NewReader(*z))
				if err != nil {
					v.fail("Gzip(%s) is not gzip data: %v", vrfClip(in), err)
					return
				}
				if d, err := io.ReadAll(r); err != nil || !bytes.Equal(d, in) {
					v.fail("Gzip(%s) decompresses to %s, %v", vrfClip(in), vrfClip(d), err)
				}
				if d := Gunzip(*z); !bytes.Equal(*d, in) {
					v.fail("Gunzip(Gzip(%s)) = %s", vrfClip(in), vrfClip(*d))
				}
				// other writers, several members
				if d := Gunzip(append(vrfZip(in), vrfZip([]byte("tail"))...)); !bytes.Equal(*d, append(append([]byte{}, in...), "tail"...)) {
					v.fail("Gunzip of two members (%s, tail) = %s", vrfClip(in), vrfClip(*d))
				}
			})
			// a result does not change when the pools are used again, also after bad data
			if v.rnd.Intn(3) == 0 {
				v.run("history", vrfClip(in), func() {
					z := *Gzip(in)
					u := *Gunzip(vrfZip(in))
					z0, u0 := append([]byte{}, z...), append([]byte{}, u...)
					full := vrfZip(v.bytes(2000))
					Gunzip(full[:len(full)/2])
					func() {
						defer func() { recover() }()
						Gunzip([]byte("not gzip at all"))
					}()
					Gzip(v.bytes(v.rnd.Intn(5000)))
					if !bytes.Equal(z, z0) || !bytes.Equal(u, u0) {
						v.fail("result for %s changed when the pools were used again", vrfClip(in))
					}
					if d := Gunzip(*Gzip(in)); !bytes.Equal(*d, in) {
						v.fail("after other uses Gunzip(Gzip(%s)) = %s", vrfClip(in), vrfClip(*d))
					}
				})
			}
		}
		v.run("concurrent", "16 goroutines", func() {
			var wg sync.WaitGroup
			for g := 0; g < 16; g++ {
				in := v.bytes(100 + g*1000)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 30; i++ {
						if d := Gunzip(*Gzip(in)); !bytes.Equal(*d, in) {
							v.fail("concurrent use: Gunzip(Gzip(%s)) = %s", vrfClip(in), vrfClip(*d))
							return
						}
					}
				}()
			}
			wg.Wait()
		})
	})
}
