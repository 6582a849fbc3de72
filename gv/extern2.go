package main

import (
	"compress/gzip"
	"fmt"
	"go/types"
	"net/http"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func canonHeader(s string) string                    { return http.CanonicalHeaderKey(s) }
func regexpCompile(s string) (*regexp.Regexp, error) { return regexp.Compile(s) }

// extGlobal reads a variable of an imported package.
func (c *xc) extGlobal(pkg, name string) *Term {
	p := c.ex.v.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	return c.st.load(globalAddr(g), deref(g.Type())).t()
}

// content is what is left to read from a reader, and the error that ends it.
func (c *xc) content(r *Term) (s, e *Term) {
	if r.Op == "ite" {
		s1, e1 := c.content(r.Args[1])
		s2, e2 := c.content(r.Args[2])
		return Ite(r.Args[0], s1, s2), Ite(r.Args[0], e1, e2)
	}
	if a, t := ptrIn(r); a != nil {
		switch tstr(t) {
		case "bytes.Buffer", "bytes.Reader", "strings.Reader":
			return c.st.read("W:buf", a), INil
		case "bufio.Reader":
			return c.content(c.st.read("W:rdsrc", a))
		case "maxBytesReader":
			s, e := c.content(c.st.read("W:mbr.src", a))
			n := c.st.read("W:mbr.n", a)
			n = Ite(Lt(n, Int(0)), Int(0), n)
			big := Lt(n, StrLen(s))
			me := c.err()
			c.st.assume(Eq(errMsg(me), Str("http: request body too large")))
			return Ite(big, Substr(s, Int(0), n), s), Ite(big, me, e)
		case "compress/gzip.Reader":
			s, e := c.content(c.st.read("W:gr.src", a))
			ok := And(App("isgz", SBool, s), Eq(e, INil))
			return Ite(ok, App("gunz", SStr, s), App("gunzpart", SStr, s)), Ite(ok, INil, c.err())
		case "os.File":
			f := IStrVal(c.st.read("W:rdsrc", a))
			return App("filecontent", SStr, f), c.maybeErr()
		}
	}
	s, e = App("rdcontent", SStr, r), App("rderr", SIface, r)
	c.st.assume(Not(Eq(errMsg(e), Str("http: request body too large"))))
	if eof := c.extGlobal("io", "EOF"); eof != nil {
		c.st.assume(Not(Eq(e, eof)))
	}
	c.ex.v.assumption("what an external reader delivers, and the error ending it, is fixed when reading starts; that error is neither io.EOF nor the over-limit error")
	return s, e
}

func (c *xc) readAll(r *Term) (Val, *Term) {
	c.safety(Not(Eq(r, INil)), "read from a nil reader")
	c.ex.blocked(c.st)
	s, e := c.content(r)
	drain(c.st, r)
	pad := Fresh("spare", SStr)
	arr := NewObj()
	c.st.write("B", Concat(s, pad), arr)
	cp := Add(StrLen(s), StrLen(pad))
	c.st.assume(Le(Int(8), cp)) // 512 in fact; small numbers are easier on the solvers
	return Val{c.rt(0), []*Term{arr, Int(0), StrLen(s), cp}}, e
}

func drain(st *State, r *Term) {
	if r.Op == "ite" {
		return
	}
	if a, t := ptrIn(r); a != nil {
		switch tstr(t) {
		case "bytes.Buffer", "bytes.Reader":
			st.write("W:buf", Str(""), a)
		}
	}
}

// writeHeader models ResponseWriter.WriteHeader; cond says whether it happens.
func writeHeader(c *xc, w, code, cond *Term) {
	st := c.st
	first := And(cond, Eq(st.read("W:wh", w), Int(0)))
	m := App("whdr", SAddr, w)
	st.write("W:status", Ite(first, code, st.read("W:status", w)), w)
	st.mem["W:hsnap"] = &Upd{kind: 'p', idx: []*Term{m}, val: m, uf: "H", other: st.mem["H"], cond: first, prev: st.mem["W:hsnap"]}
	st.write("W:wh", Ite(cond, Add(st.read("W:wh", w), Int(1)), st.read("W:wh", w)), w)
}

func init() {
	reg := func(f xfn, names ...string) {
		for _, n := range names {
			externs[n] = f
		}
	}
	none := func(c *xc) []Outcome { return c.ret() }

	// headers
	hget := func(c *xc) *Term {
		m := c.a[0].t()
		l := c.st.read("H", m, canonOf(c.str(1)))
		return Ite(Eq(m, Null), Str(""), Ite(Lt(Int(0), SeqLen(l)), SeqNth(l, Int(0)), Str("")))
	}
	reg(func(c *xc) []Outcome { return c.ret(hget(c)) }, "(net/http.Header).Get")
	reg(func(c *xc) []Outcome {
		m := c.a[0].t()
		l := Ite(Eq(m, Null), SeqLit(), c.st.read("H", m, canonOf(c.str(1))))
		return c.retv(c.ex.sliceOfStrs(c.st, c.rt(0), l))
	}, "(net/http.Header).Values")
	reg(func(c *xc) []Outcome {
		m := c.a[0].t()
		c.safety(Not(Eq(m, Null)), "assignment to a nil header map")
		c.st.write("H", SeqLit(c.str(2)), m, canonOf(c.str(1)))
		return c.ret()
	}, "(net/http.Header).Set")
	reg(func(c *xc) []Outcome {
		m := c.a[0].t()
		c.safety(Not(Eq(m, Null)), "assignment to a nil header map")
		k := canonOf(c.str(1))
		c.st.write("H", SeqConcat(c.st.read("H", m, k), SeqLit(c.str(2))), m, k)
		return c.ret()
	}, "(net/http.Header).Add")
	reg(func(c *xc) []Outcome {
		m := c.a[0].t()
		c.st.write("H", SeqLit(), m, canonOf(c.str(1)))
		return c.ret()
	}, "(net/http.Header).Del")
	reg(func(c *xc) []Outcome { return c.ret(canonOf(c.str(0))) }, "net/http.CanonicalHeaderKey")

	// response writers
	reg(func(c *xc) []Outcome { return c.ret(App("whdr", SAddr, c.a[0].t())) }, "(net/http.ResponseWriter).Header")
	reg(func(c *xc) []Outcome {
		code := c.a[1].t()
		c.safety(And(Le(Int(100), code), Le(code, Int(999))), "WriteHeader with a code outside 100..999")
		writeHeader(c, c.a[0].t(), code, True)
		return c.ret()
	}, "(net/http.ResponseWriter).WriteHeader")
	wwrite := func(c *xc, s *Term) []Outcome {
		w := c.a[0].t()
		writeHeader(c, w, Int(200), Eq(c.st.read("W:wh", w), Int(0)))
		c.st.write("W:body", Concat(c.st.read("W:body", w), s), w)
		c.st.write("W:writes", Add(c.st.read("W:writes", w), Int(1)), w)
		return c.ret(Fresh("written", SInt), c.maybeErr())
	}
	reg(func(c *xc) []Outcome { return wwrite(c, c.bytes(1)) }, "(net/http.ResponseWriter).Write")
	reg(func(c *xc) []Outcome {
		w := c.a[0].t()
		if a, t := ptrIn(w); a != nil && (tstr(t) == "bytes.Buffer" || tstr(t) == "strings.Builder") {
			c.st.write("W:buf", Concat(c.st.read("W:buf", a), c.a[1].t()), a)
			return c.ret(Fresh("written", SInt), INil)
		}
		return wwrite(c, c.a[1].t())
	}, "io.WriteString")

	// requests
	reg(func(c *xc) []Outcome {
		off := 0
		var ctx *Term
		if c.name == "net/http.NewRequestWithContext" {
			off, ctx = 1, c.a[0].t()
		} else {
			ctx = INil
		}
		o := unzObj()
		T := deref(c.rt(0))
		m := c.str(off)
		m = Ite(Eq(m, Str("")), Str("GET"), m)
		set := func(f string, v *Term) {
			i := fieldIndex(T, f)
			ft := under(T).(*types.Struct).Field(i).Type()
			c.st.store(Sub(o, fid(T, i)), ft, V1(ft, v))
		}
		set("Method", m)
		h := NewObj()
		set("Header", h)
		body := c.a[off+2].t()
		c.st.write("W:rq.url", c.str(off+1), o)
		s, _ := Str(""), INil
		if body != INil {
			s2, _ := c.content(body)
			s = Ite(Eq(body, INil), Str(""), s2)
		}
		c.st.write("W:rq.body", s, o)
		c.st.write("W:rq.hasbody", Not(Eq(body, INil)), o)
		c.st.write("W:rq.ctx", ctx, o)
		c.ex.v.assumption("http.NewRequestWithContext succeeds (the upstream URI parses)")
		return c.ret(o, INil)
	}, "net/http.NewRequestWithContext", "net/http.NewRequest")
	reg(func(c *xc) []Outcome {
		x := c.st.read("W:rq.ctx", c.a[0].t())
		c.st.assume(Not(Eq(x, INil)))
		return c.ret(x)
	}, "(*net/http.Request).Context")
	reg(func(c *xc) []Outcome { return c.ret(App("urlpath", SStr, c.a[0].t())) }, "(*net/url.URL).EscapedPath")
	reg(func(c *xc) []Outcome { return c.ret(App("urluri", SStr, c.a[0].t())) }, "(*net/url.URL).RequestURI")
	reg(func(c *xc) []Outcome { return c.ret(App("urlstr", SStr, c.a[0].t())) }, "(*net/url.URL).String")
	reg(func(c *xc) []Outcome {
		o := NewObj()
		c.st.write("W:mbr.src", c.a[1].t(), o)
		c.st.write("W:mbr.n", c.a[2].t(), o)
		return c.ret(IPtr(tagOf(mbrT), o))
	}, "net/http.MaxBytesReader")
	reg(func(c *xc) []Outcome {
		o := NewObj()
		c.st.write("W:mbr.src", c.a[0].t(), o)
		c.st.write("W:mbr.n", c.a[1].t(), o)
		unsupp("io.LimitReader")
		return nil
	}, "io.LimitReader")
	reg(func(c *xc) []Outcome {
		o := NewObj()
		c.st.write("W:rdsrc", c.a[0].t(), o)
		return c.ret(o)
	}, "bufio.NewReader", "bufio.NewReaderSize")
	reg(func(c *xc) []Outcome {
		v, e := c.readAll(c.a[0].t())
		return c.retv(v, VErr(e))
	}, "io/ioutil.ReadAll", "io.ReadAll")
	reg(func(c *xc) []Outcome {
		T := deref(c.a[1].T)
		req := c.a[1].t()
		n := c.st.read("W:do")
		f := func(name string) *Term { return fieldOf(c.st.load(req, T), fieldIndex(T, name)).t() }
		c.st.write("W:do.url", c.st.read("W:rq.url", req), n)
		c.st.write("W:do.method", f("Method"), n)
		c.st.write("W:do.body", c.st.read("W:rq.body", req), n)
		c.st.write("W:do.hasbody", c.st.read("W:rq.hasbody", req), n)
		hm := f("Header")
		c.st.mem["W:do.h"] = &Upd{kind: 'p', idx: []*Term{n}, val: hm, uf: "H", other: c.st.mem["H"], cond: True, prev: c.st.mem["W:do.h"]}
		c.st.write("W:do", Add(n, Int(1)))
		c.ex.blocked(c.st)
		return c.fork(Fresh("upstreamok", SBool), func(c *xc) []Outcome {
			o := unzObj()
			T := deref(c.rt(0))
			rv := func(name string) Val {
				i := fieldIndex(T, name)
				return c.st.load(Sub(o, fid(T, i)), under(T).(*types.Struct).Field(i).Type())
			}
			sc := rv("StatusCode").t()
			h := unzObj()
			hf := fieldIndex(T, "Header")
			ht := under(T).(*types.Struct).Field(hf).Type()
			c.st.store(Sub(o, fid(T, hf)), ht, V1(ht, h))
			c.st.assume(Le(Int(0), sc), Le(sc, Int(999)), Not(Eq(rv("Body").t(), INil)))
			c.ex.v.assumption("http.Client.Do returns either a response with a non-nil body, non-nil header map and 0<=StatusCode<=999, or nil and an error")
			return c.ret(o, INil)
		}, func(c *xc) []Outcome { return c.ret(Null, c.err()) })
	}, "(HTTPClient).Do", "(*net/http.Client).Do")

	// contexts
	reg(func(c *xc) []Outcome { return c.ret(IPtr(tagOf(ctxT), Obj(-2000003))) }, "context.TODO", "context.Background")
	withCancel := func(c *xc) (*Term, *Term, *Term) {
		ch := NewObj()
		o := NewObj()
		c.st.write(extKey(), True, ch)
		c.st.write("W:ctxch", ch, o)
		cf := NewObj()
		cancels[objId(cf)] = ch
		return IPtr(tagOf(ctxT), o), cf, ch
	}
	reg(func(c *xc) []Outcome {
		x, f, _ := withCancel(c)
		return c.ret(x, f)
	}, "context.WithCancel")
	reg(func(c *xc) []Outcome {
		x, f, ch := withCancel(c)
		c.st.write("W:timer", c.a[1].t(), ch)
		c.st.write("W:timers", Int(1), ch)
		return c.ret(x, f)
	}, "context.WithTimeout")
	reg(func(c *xc) []Outcome {
		x := c.a[0].t()
		if a, t := ptrIn(x); a != nil && t == deref(ctxT) {
			return c.ret(c.st.read("W:ctxch", a))
		}
		ch := App("ctxdone", SAddr, x)
		c.st.write(extKey(), True, ch)
		return c.ret(ch)
	}, "(context.Context).Done")

	// gzip
	gzReset := func(c *xc, w, dst *Term) {
		c.st.write("W:gz.dst", dst, w)
		c.st.write("W:gz.in", Str(""), w)
		base := Str("")
		if a, t := ptrIn(dst); a != nil && tstr(t) == "bytes.Buffer" {
			base = c.st.read("W:buf", a)
		}
		c.st.write("W:gz.base", base, w)
	}
	gzOut := func(c *xc, w, s *Term) {
		dst := c.st.read("W:gz.dst", w)
		if a, t := ptrIn(dst); a != nil && tstr(t) == "bytes.Buffer" {
			c.st.write("W:buf", Concat(c.st.read("W:gz.base", w), s), a)
			dirty(c.st, a)
		}
	}
	reg(func(c *xc) []Outcome {
		o := NewObj()
		gzReset(c, o, c.a[0].t())
		return c.ret(o)
	}, "compress/gzip.NewWriter")
	reg(func(c *xc) []Outcome {
		o := NewObj()
		gzReset(c, o, c.a[0].t())
		return c.ret(o, INil)
	}, "compress/gzip.NewWriterLevel")
	reg(func(c *xc) []Outcome { gzReset(c, c.a[0].t(), c.a[1].t()); return c.ret() }, "(*compress/gzip.Writer).Reset")
	reg(func(c *xc) []Outcome {
		w := c.a[0].t()
		in := Concat(c.st.read("W:gz.in", w), c.bytes(1))
		c.st.write("W:gz.in", in, w)
		gzOut(c, w, App("gzpartial", SStr, in))
		return c.ret(c.a[1].L[2], INil)
	}, "(*compress/gzip.Writer).Write")
	reg(func(c *xc) []Outcome {
		w := c.a[0].t()
		gzOut(c, w, App("gz", SStr, c.st.read("W:gz.in", w)))
		return c.ret(INil)
	}, "(*compress/gzip.Writer).Close")
	reg(func(c *xc) []Outcome {
		w := c.a[0].t()
		gzOut(c, w, App("gzflushed", SStr, c.st.read("W:gz.in", w)))
		return c.ret(INil)
	}, "(*compress/gzip.Writer).Flush")
	reg(func(c *xc) []Outcome {
		hdr := Fresh("gzhdr", SBool)
		src, _ := c.content(c.a[0].t())
		if src.Op == "str" {
			_, err := gzip.NewReader(strings.NewReader(src.S))
			hdr = Bool(err == nil)
		}
		return c.fork(hdr, func(c *xc) []Outcome {
			o := unzObj()
			c.st.write("W:gr.src", c.a[0].t(), o)
			return c.ret(o, INil)
		}, func(c *xc) []Outcome { return c.ret(Null, c.err()) })
	}, "compress/gzip.NewReader")
	reg(func(c *xc) []Outcome {
		c.st.write("W:gr.src", c.a[1].t(), c.a[0].t())
		s, _ := c.content(c.a[1].t())
		bad := Fresh("badgz", SBool)
		c.st.assume(Implies(App("isgz", SBool, s), Not(bad)))
		return c.ret(Ite(bad, c.err(), INil))
	}, "(*compress/gzip.Reader).Reset")
	reg(func(c *xc) []Outcome { return c.ret(c.maybeErr()) }, "(*compress/gzip.Reader).Close")

	// json, yaml
	reg(func(c *xc) []Outcome {
		x := c.a[0].t()
		tag := ITag(x)
		var s *Term
		if tag.Op == "int" && tagType(int(tag.I.Int64())) != nil {
			t := tagType(int(tag.I.Int64()))
			v := c.ex.unbox(c.st, x, t)
			if isPtr(t) && isStruct(deref(t)) {
				t = deref(t)
				v = c.st.load(IAddr(x), t)
			}
			if isStruct(t) && scalarsOnly(t) {
				n := "json_" + tstr(t)
				s = App(n, SStr, v.L...)
				jsonAxioms(n, t)
			}
		}
		if s == nil {
			s = Fresh("json", SStr)
			c.st.assume(Le(Int(2), StrLen(s)))
		}
		return c.retv(c.retBytes(s), VErr(INil))
	}, "encoding/json.Marshal")
	reg(func(c *xc) []Outcome {
		x := c.a[1].t()
		if a, t := ptrIn(x); a != nil {
			if _, ok := under(t).(*types.Map); ok {
				// entries are added to the map, or a new map is made
				c.st.store(a, t, V1(t, unzObj()))
			} else {
				c.ex.havocAt(c.st, a, t)
				if isStruct(t) {
					s := under(t).(*types.Struct)
					for i := 0; i < s.NumFields(); i++ {
						f := c.st.load(Sub(a, fid(t, i)), s.Field(i).Type())
						if len(f.L) > 0 && f.L[0].Sort == SAddr {
							c.st.write("W:json.ref", f.L[0], Str(s.Field(i).Name()))
						}
						if isSlice(s.Field(i).Type()) {
							c.st.write("W:json.len", f.L[2], Str(s.Field(i).Name()))
						}
						if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && !isHeaderMap(s.Field(i).Type()) {
							c.decodedApart(f, m)
						}
					}
				}
			}
			c.st.write("W:json", c.bytes(0))
			c.st.write("W:jsons", Add(c.st.read("W:jsons"), Int(1)))
		} else {
			unsupp("json.Unmarshal into a value of unknown type")
		}
		return c.ret(c.maybeErr())
	}, "encoding/json.Unmarshal")
	reg(func(c *xc) []Outcome {
		return c.retv(c.retBytes(App("yamljson", SStr, c.bytes(0))), VErr(c.maybeErr()))
	}, "github.com/ghodss/yaml.YAMLToJSON")
	reg(func(c *xc) []Outcome {
		e := c.a[0].t()
		ok := App("b64ok", SBool, e, c.str(1))
		return c.retv(c.retBytes(App("b64", SStr, e, c.str(1))), VErr(Ite(ok, INil, c.err())))
	}, "(*encoding/base64.Encoding).DecodeString")

	// certificates and keys
	certFacts := func(c *xc, a *Term, T types.Type) {
		f := func(n string) *Term { return fieldOf(c.st.load(a, T), fieldIndex(T, n)).t() }
		c.st.assume(Not(Eq(a, Null)), Not(Eq(f("SerialNumber"), Null)))
		keyFacts(c, f("PublicKey"))
	}
	reg(func(c *xc) []Outcome {
		d := c.bytes(0)
		return c.fork(App("certok", SBool, d), func(c *xc) []Outcome {
			a := App("cert", SAddr, d)
			certFacts(c, a, deref(c.rt(0)))
			return c.ret(a, INil)
		}, func(c *xc) []Outcome { return c.ret(Null, c.err()) })
	}, "crypto/x509.ParseCertificate")
	reg(func(c *xc) []Outcome {
		d := c.bytes(0)
		return c.fork(App("pkixok", SBool, d), func(c *xc) []Outcome {
			k := App("pkix", SIface, d)
			c.st.assume(Not(Eq(k, INil)))
			keyFacts(c, k)
			return c.ret(k, INil)
		}, func(c *xc) []Outcome { return c.ret(INil, c.err()) })
	}, "crypto/x509.ParsePKIXPublicKey")
	reg(func(c *xc) []Outcome {
		d := c.bytes(0)
		return c.fork(App("pemok", SBool, d), func(c *xc) []Outcome {
			T := deref(c.rt(0))
			o := unzObj()
			i := fieldIndex(T, "Type")
			c.st.store(Sub(o, fid(T, i)), stringT, VStr(App("pemtype", SStr, d)))
			i = fieldIndex(T, "Bytes")
			bt := under(T).(*types.Struct).Field(i).Type()
			c.st.store(Sub(o, fid(T, i)), bt, c.retBytes(App("pembytes", SStr, d)))
			return c.retv(V1(c.rt(0), o), c.retBytes(App("pemrest", SStr, d)))
		}, func(c *xc) []Outcome { return c.retv(V1(c.rt(0), Null), c.a[0]) })
	}, "encoding/pem.Decode")
	axiomFns["pemok"] = func(a *Term) []*Term { return []*Term{Implies(a, Not(Eq(a.Args[0], Str(""))))} }
	reg(func(c *xc) []Outcome {
		x := c.a[0].t()
		o := App("curveparams", SAddr, x)
		c.st.assume(Not(Eq(o, Null)))
		return c.ret(o)
	}, "(crypto/elliptic.Curve).Params")
	reg(func(c *xc) []Outcome { o := NewObj(); return c.ret(o) }, "crypto/x509.NewCertPool")
	reg(func(c *xc) []Outcome {
		p, k := c.a[0].t(), c.a[1].t()
		c.safety(Not(Eq(k, Null)), "AddCert of a nil certificate")
		c.st.write("W:pool", True, p, k)
		return c.ret()
	}, "(*crypto/x509.CertPool).AddCert")
	reg(func(c *xc) []Outcome {
		v := c.fresh(0, "subjects")
		m := BVar("member", SAddr)
		c.st.assume(Eq(Lt(Int(0), v.L[2]), Exists([]*Term{m}, c.st.read("W:pool", c.a[0].t(), m))))
		return c.retv(v)
	}, "(*crypto/x509.CertPool).Subjects")
	reg(func(c *xc) []Outcome {
		opts := c.a[1]
		T := opts.T
		c.st.write("W:vf.roots", fieldOf(opts, fieldIndex(T, "Roots")).t())
		c.st.write("W:vf.inter", fieldOf(opts, fieldIndex(T, "Intermediates")).t())
		c.st.write("W:vf.cert", c.a[0].t())
		c.st.write("W:vf", Add(c.st.read("W:vf"), Int(1)))
		ok := Fresh("chainok", SBool)
		return c.fork(ok, func(c *xc) []Outcome {
			ct := under(c.rt(0)).(*types.Slice).Elem() // []*Certificate
			out, in := unzObj(), unzObj()
			n, m := Fresh("nchains", SInt), Fresh("nchain", SInt)
			c.st.assume(Le(Int(1), n), Le(Int(1), m))
			c.st.store(Elem(out, Int(0)), ct, Val{ct, []*Term{in, Int(0), m, m}})
			pt := under(ct).(*types.Slice).Elem()
			j := BVarNamed("cj", SInt)
			e := c.st.load(Elem(in, j), pt).t()
			vf := c.st.read("W:vf")
			c.st.assume(Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, m)), Not(Eq(e, Null)))))
			c.st.assume(Forall([]*Term{j}, Eq(e, App("vfchain", SAddr, vf, j))), Eq(App("vfn", SInt, vf), m))
			c.st.assume(App("vfok", SBool, vf), Eq(App("vfchain", SAddr, vf, Int(0)), c.a[0].t()))
			return c.retv(Val{c.rt(0), []*Term{out, Int(0), n, n}}, VErr(INil))
		}, func(c *xc) []Outcome {
			c.st.assume(Not(App("vfok", SBool, c.st.read("W:vf"))))
			return c.retv(zeroVal(c.rt(0)), VErr(c.err()))
		})
	}, "(*crypto/x509.Certificate).Verify")
	reg(func(c *xc) []Outcome {
		ct, ky := c.bytes(0), c.bytes(1)
		return c.fork(App("kpok", SBool, ct, ky), func(c *xc) []Outcome {
			T := c.rt(0)
			v := Val{T: T}
			for i, s := range leafSorts(T) {
				v.L = append(v.L, App(fmt.Sprintf("kp%d", i), s, ct, ky))
			}
			c.st.assume(typeFacts(v)...)
			c.st.assume(Le(Int(1), fieldOf(v, fieldIndex(T, "Certificate")).L[2]))
			return c.retv(v, VErr(INil))
		}, func(c *xc) []Outcome { return c.retv(zeroVal(c.rt(0)), VErr(c.err())) })
	}, "crypto/tls.X509KeyPair")

	// jwx
	const jwx = "github.com/lestrrat-go/jwx/"
	algs := []string{"ES256", "ES384", "ES512", "HS256", "HS384", "HS512", "none", "PS256", "PS384", "PS512", "RS256", "RS384", "RS512"}
	reg(func(c *xc) []Outcome {
		p, v := c.a[0].t(), c.a[1].t()
		s := IStrVal(v)
		ok := False
		for _, a := range algs {
			ok = Or(ok, Eq(s, Str(a)))
		}
		t := deref(c.a[0].T)
		old := c.st.load(p, t).t()
		c.st.store(p, t, V1(t, Ite(ok, s, old)))
		return c.ret(Ite(ok, INil, c.err()))
	}, "(*"+jwx+"jwa.SignatureAlgorithm).Accept")
	reg(func(c *xc) []Outcome { return c.ret(c.str(0)) }, "("+jwx+"jwa.SignatureAlgorithm).String")
	reg(func(c *xc) []Outcome {
		c.st.write("W:fetch", Add(c.st.read("W:fetch"), Int(1)))
		return c.fork(Fresh("fetched", SBool), func(c *xc) []Outcome {
			o := unzObj()
			T := deref(c.rt(0))
			ks := fieldOf(c.st.load(o, T), fieldIndex(T, "Keys"))
			c.st.assume(typeFacts(ks)...)
			j := BVarNamed("kj", SInt)
			e := c.st.load(Elem(ks.L[0], Add(ks.L[1], j)), under(ks.T).(*types.Slice).Elem()).t()
			c.st.assume(Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, ks.L[2])), Not(Eq(e, INil)))))
			return c.ret(o, INil)
		}, func(c *xc) []Outcome { return c.ret(Null, c.err()) })
	}, jwx+"jwk.Fetch")
	reg(func(c *xc) []Outcome {
		T := deref(c.a[0].T)
		return c.ret(fieldOf(c.st.load(c.a[0].t(), T), fieldIndex(T, "Keys")).L[2])
	}, "(*"+jwx+"jwk.Set).Len")
	reg(func(c *xc) []Outcome { return c.ret(App("jwkalg", SStr, c.a[0].t())) }, "("+jwx+"jwk.Key).Algorithm")
	reg(func(c *xc) []Outcome { return c.ret(App("jwkid", SStr, c.a[0].t())) }, "("+jwx+"jwk.Key).KeyID")
	reg(func(c *xc) []Outcome {
		a, t := ptrIn(c.a[1].t())
		if a == nil {
			unsupp("jwk.Key.Raw into a value of unknown type")
		}
		k := c.a[0].t()
		ok := App("rawok_"+tstr(t), SBool, k)
		return c.fork(ok, func(c *xc) []Outcome {
			c.ex.havocAt(c.st, a, t)
			for _, n := range []string{"N", "X", "Y", "Curve"} {
				s := under(t).(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == n {
						v := c.st.load(Sub(a, fid(t, i)), s.Field(i).Type()).t()
						c.st.assume(Not(Eq(v, zeroOfSort(v.Sort))))
					}
				}
			}
			c.st.write("W:raw", k, a)
			return c.ret(INil)
		}, func(c *xc) []Outcome { return c.ret(c.err()) })
	}, "("+jwx+"jwk.Key).Raw")
	reg(func(c *xc) []Outcome {
		s, _ := c.content(c.a[0].t())
		return c.fork(App("jwsok", SBool, s), func(c *xc) []Outcome {
			o := unzObj()
			c.st.write("W:buf", s, o)
			return c.ret(o, INil)
		}, func(c *xc) []Outcome { return c.ret(Null, c.err()) })
	}, jwx+"jws.Parse")
	reg(func(c *xc) []Outcome { return c.retv(c.fresh(0, "sigs")) }, "("+jwx+"jws.Message).Signatures", "(*"+jwx+"jws.Message).Signatures")
	reg(func(c *xc) []Outcome {
		o := NewObj()
		c.st.write("W:opt.alg", c.str(0), o)
		c.st.write("W:opt.key", c.a[1].t(), o)
		return c.ret(IPtr(tagOf(optT), o))
	}, jwx+"jwt.WithVerify")
	reg(func(c *xc) []Outcome {
		s, _ := c.content(c.a[0].t())
		ok := App("jwtok", SBool, s)
		if c.a[1].L[2].Op != "int" {
			unsupp("jwt.Parse with an unknown number of options")
		}
		for i := int64(0); i < c.a[1].L[2].I.Int64(); i++ {
			o := c.st.load(Elem(c.a[1].L[0], Add(c.a[1].L[1], Int(i))), under(c.a[1].T).(*types.Slice).Elem()).t()
			a, t := ptrIn(o)
			if a == nil || t != deref(optT) {
				unsupp("unknown option of jwt.Parse: %v", o)
			}
			ok = And(ok, App("jwsver", SBool, s, c.st.read("W:opt.alg", a), c.st.read("W:opt.key", a)))
		}
		return c.fork(ok, func(c *xc) []Outcome {
			o := NewObj()
			c.st.write("W:tok.iat", App("iat", SInt, s), o)
			c.st.write("W:tok.nbf", App("nbf", SInt, s), o)
			c.st.write("W:tok.exp", App("exp", SInt, s), o)
			return c.ret(IPtr(tagOf(tokT), o), INil)
		}, func(c *xc) []Outcome { return c.ret(INil, c.err()) })
	}, jwx+"jwt.Parse")
	tok := func(k string) xfn {
		return func(c *xc) []Outcome { return c.ret(c.st.read(k, IAddr(c.a[0].t()))) }
	}
	reg(tok("W:tok.iat"), "("+jwx+"jwt.Token).IssuedAt")
	reg(tok("W:tok.nbf"), "("+jwx+"jwt.Token).NotBefore")
	reg(tok("W:tok.exp"), "("+jwx+"jwt.Token).Expiration")
	reg(func(c *xc) []Outcome {
		k, v := c.str(1), c.a[2].t()
		if k.Op != "str" {
			unsupp("jwt claim with an unknown name")
		}
		if tg := ITag(v); keys["W:tok."+k.S] != nil && tg.Op == "int" && isTime(tagType(int(tg.I.Int64()))) {
			c.st.write("W:tok."+k.S, IIntVal(v), IAddr(c.a[0].t()))
			return c.ret(INil)
		}
		return c.ret(c.maybeErr())
	}, "("+jwx+"jwt.Token).Set")
	reg(func(c *xc) []Outcome {
		if c.a[1].L[2] != Int(0) {
			unsupp("jwt.Verify with options")
		}
		a := IAddr(c.a[0].t())
		c.safety(Not(Eq(c.a[0].t(), INil)), "jwt.Verify of a nil token")
		nw := now(c.st)
		c.st.write("W:ver.now", nw)
		n := truncSec(nw)
		iat, nbf, exp := c.st.read("W:tok.iat", a), c.st.read("W:tok.nbf", a), c.st.read("W:tok.exp", a)
		ok := And(Or(Eq(exp, Int(0)), Lt(n, truncSec(exp))),
			Or(Eq(iat, Int(0)), Not(Lt(n, truncSec(iat)))),
			Or(Eq(nbf, Int(0)), Lt(truncSec(nbf), n)))
		return c.ret(Ite(ok, INil, c.err()))
	}, jwx+"jwt.Verify", jwx+"jwt.Validate")

	// servers
	reg(func(c *xc) []Outcome { return c.ret(NewObj()) }, "net/http.NewServeMux", "log.New")
	reg(func(c *xc) []Outcome {
		c.st.write("W:mux", IAddr(c.a[2].t()), c.a[0].t(), c.str(1))
		return c.ret()
	}, "(*net/http.ServeMux).Handle")
	reg(func(c *xc) []Outcome {
		c.st.write("W:mux", c.a[2].t(), c.a[0].t(), c.str(1))
		return c.ret()
	}, "(*net/http.ServeMux).HandleFunc")
	listen := func(tls bool) xfn {
		return func(c *xc) []Outcome {
			c.st.write("W:listen", Add(c.st.read("W:listen"), Int(1)))
			c.st.write("W:listen.srv", c.a[0].t())
			c.st.write("W:listen.tls", Bool(tls))
			return c.ret(c.err())
		}
	}
	reg(listen(false), "(*net/http.Server).ListenAndServe")
	reg(listen(true), "(*net/http.Server).ListenAndServeTLS")
	reg(func(c *xc) []Outcome { return c.ret(NewObj(), c.maybeErr()) }, "github.com/shirou/gopsutil/process.NewProcess")
	_ = none
	_ = strings.Contains
}

// keyFacts: a parsed key is never a nil pointer, and an elliptic key has a curve.
func keyFacts(c *xc, k *Term) {
	for _, n := range []string{"crypto/rsa", "crypto/ecdsa"} {
		p := c.ex.v.prog.ImportedPackage(n)
		if p == nil {
			continue
		}
		T := p.Type("PublicKey").Type()
		is := Eq(ITag(k), Int(int64(tagOf(types.NewPointer(T)))))
		a := IAddr(k)
		c.st.assume(Implies(is, Not(Eq(a, Null))))
		s := under(T).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Curve" {
				v := c.st.load(Sub(a, fid(T, i)), s.Field(i).Type()).t()
				c.st.assume(Implies(is, Not(Eq(v, INil))))
			}
		}
	}
}

func scalarsOnly(t types.Type) bool {
	for _, s := range leafSorts(t) {
		if s != SStr && s != SInt && s != SBool {
			return false
		}
	}
	return true
}

var jsonDone = map[string]bool{}

// jsonAxioms: the encoding of a struct is an object longer than two bytes, and its fields can be read back.
func jsonAxioms(n string, t types.Type) {
	n = sanit(n)
	if jsonDone[n] {
		return
	}
	jsonDone[n] = true
	var names []string
	var rec func(t types.Type)
	rec = func(t types.Type) {
		s := under(t).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if isStruct(s.Field(i).Type()) {
				rec(s.Field(i).Type())
				continue
			}
			names = append(names, s.Field(i).Name())
		}
	}
	rec(t)
	axiomFns[n] = func(a *Term) []*Term {
		out := []*Term{Le(Int(5), StrLen(a))}
		low := strSet(a, Int(2), Str("j"))
		for i, f := range names {
			if i >= len(a.Args) {
				break
			}
			g := "jfield_" + f
			out = append(out, Eq(App(g, a.Args[i].Sort, a), a.Args[i]), Eq(App(g, a.Args[i].Sort, low), a.Args[i]))
		}
		return out
	}
}

// decodedApart: the values of a decoded map share no storage with one another.
func (c *xc) decodedApart(m Val, mt *types.Map) {
	c.ex.v.assumption("encoding/json: the values of a decoded map are distinct objects and share no storage")
	k1, k2 := BVarNamed("dk1", SStr), BVarNamed("dk2", SStr)
	if leafSorts(mt.Key())[0] != SStr || len(leafSorts(mt.Key())) != 1 {
		return
	}
	at := func(k *Term) (Val, *Term) {
		v, _ := c.ex.mapGet(c.st, m, Val{mt.Key(), []*Term{k}})
		return v, And(Not(Eq(m.t(), Null)), c.ex.mapDom(c.st, m, k))
	}
	e := mt.Elem()
	if !isSlice(e) && !isPtr(e) {
		return
	}
	a, ina := at(k1)
	b, inb := at(k2)
	c.st.assume(Forall([]*Term{k1, k2}, Implies(And(Not(Eq(k1, k2)), ina, inb, Not(Eq(a.L[0], Null))), Not(Eq(a.L[0], b.L[0])))))
	if isPtr(e) && isStruct(deref(e)) {
		t := deref(e)
		s := under(t).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			for j := i + 1; j < s.NumFields(); j++ {
				if isSlice(s.Field(i).Type()) && isSlice(s.Field(j).Type()) {
					x := c.st.load(Sub(a.L[0], fid(t, i)), s.Field(i).Type()).L[0]
					y := c.st.load(Sub(a.L[0], fid(t, j)), s.Field(j).Type()).L[0]
					c.st.assume(Forall([]*Term{k1}, Implies(And(ina, Not(Eq(a.L[0], Null)), Not(Eq(x, Null))), Not(Eq(x, y)))))
				}
			}
		}
	}
}
