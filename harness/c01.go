package main

import (
	"bytes"
	"fmt"
	"strings"

	J "yunion.io/x/jsonutils"
)

var soupTokens = []string{"{", "}", "[", "]", ":", ",", "\"", "'", "\\", "a", "1", "-", ".", "<", ">", " ", "\"a\"", "null", "\"___jnid_\"", "<1>"}

// useDoc prints, compares, copies and converts a document
func useDoc(c *Ctx, o J.JSONObject, deep bool) string {
	txt := o.String()
	o.Equals(o)
	cp := J.DeepCopy(o)
	if cp == nil {
		c.Fail("DeepCopy of a parsed document is nil: %s", q(txt))
	}
	if s := cp.String(); s != txt {
		c.Fail("DeepCopy prints %s instead of %s", q(s), q(txt))
	}
	o.Interface()
	if !deep {
		o.PrettyString()
		o.QueryString()
		if len(txt) < 3000 {
			o.YAMLString()
		}
	}
	o.IsZero()
	o.GetString()
	o.GetArray()
	o.GetMap()
	var x interface{}
	o.Unmarshal(&x)
	m := map[string]interface{}{}
	o.Unmarshal(&m)
	var d J.JSONObject
	o.Unmarshal(&d)
	J.Marshal(o)
	return txt
}

func parseOnce(c *Ctx, in []byte, off int) (J.JSONObject, int, error) {
	var (
		o   J.JSONObject
		end int
		err error
	)
	keep := append([]byte(nil), in...)
	if p := try(func() { o, end, err = J.ParseStream(in, off) }); p != nil {
		c.Fail("ParseStream(%s, %d) panics: %v", q(string(keep)), off, p)
	}
	c.Check(bytes.Equal(in, keep), "ParseStream changes its input %s to %s", q(string(keep)), q(string(in)))
	c.Check((o == nil) != (err == nil), "ParseStream(%s, %d) = document %v, error %v", q(string(in)), off, o, err)
	lo, hi := off, len(in)
	if lo > hi {
		hi = lo
	}
	c.Check(end >= lo && end <= hi, "ParseStream(%s, %d) reports the end %d", q(string(in)), off, end)
	return o, end, err
}

// parseTotal checks one input through all entry points
func parseTotal(c *Ctx, in []byte, deep bool) {
	keep := append([]byte(nil), in...)
	o, _, err := parseOnce(c, in, 0)
	c.Ev("parsed", 1)
	if err == nil {
		c.Ev("accepted", 1)
		var txt string
		if p := try(func() { txt = useDoc(c, o, deep) }); p != nil {
			c.Fail("using the document of %s panics: %v", q(string(in)), p)
		}
		o2, err2 := J.Parse(in)
		c.Check(err2 == nil && o2 != nil, "Parse(%s) fails after ParseStream succeeded: %v", q(string(in)), err2)
		c.Check(o2.String() == txt, "parsing %s twice gives %s and %s", q(string(in)), q(txt), q(o2.String()))
		o3, err3 := J.ParseString(string(in))
		c.Check(err3 == nil && o3 != nil && o3.String() == txt, "ParseString(%s) differs from Parse", q(string(in)))
	} else {
		c.Ev("rejected", 1)
		if p := try(func() { _ = err.Error() }); p != nil {
			c.Fail("the error of %s panics: %v", q(string(in)), p)
		}
		o2, err2 := J.Parse(in)
		c.Check(err2 != nil && o2 == nil, "Parse(%s) = %v, %v after ParseStream failed with %v", q(string(in)), o2, err2, err)
		o3, err3 := J.ParseString(string(in))
		c.Check(err3 != nil && o3 == nil, "ParseString(%s) = %v, %v after ParseStream failed with %v", q(string(in)), o3, err3, err)
	}
	if deep {
		return
	}
	var (
		ds   []J.JSONObject
		serr error
	)
	if p := try(func() { ds, serr = J.ParseJsonStreams(in) }); p != nil {
		c.Fail("ParseJsonStreams(%s) panics: %v", q(string(in)), p)
	}
	c.Check(serr == nil || len(ds) == 0, "ParseJsonStreams(%s) returns documents and the error %v", q(string(in)), serr)
	c.Check(serr != nil || ds != nil, "ParseJsonStreams(%s) returns neither documents nor an error", q(string(in)))
	for i, d := range ds {
		c.Check(d != nil, "ParseJsonStreams(%s): document %d is nil", q(string(in)), i)
		if i < 3 {
			if p := try(func() { useDoc(c, d, len(ds) > 20) }); p != nil {
				c.Fail("using document %d of the stream %s panics: %v", i, q(string(in)), p)
			}
		}
	}
	ds2, serr2 := J.ParseJsonStreams(in)
	c.Check((serr == nil) == (serr2 == nil) && fmt.Sprint(ds) == fmt.Sprint(ds2), "ParseJsonStreams(%s) twice gives different results", q(string(in)))
	var (
		qd   J.JSONObject
		qerr error
	)
	if p := try(func() { qd, qerr = J.ParseQueryString(string(in)) }); p != nil {
		c.Fail("ParseQueryString(%s) panics: %v", q(string(in)), p)
	}
	c.Check((qd == nil) != (qerr == nil), "ParseQueryString(%s) = %v, %v", q(string(in)), qd, qerr)
	if qerr == nil {
		c.Ev("query_accepted", 1)
		var txt string
		if p := try(func() { txt = useDoc(c, qd, false) }); p != nil {
			c.Fail("using the document of the query %s panics: %v", q(string(in)), p)
		}
		qd2, _ := J.ParseQueryString(string(in))
		c.Check(qd2 != nil && qd2.String() == txt, "ParseQueryString(%s) twice gives %s and %v", q(string(in)), q(txt), qd2)
	}
	c.Check(bytes.Equal(in, keep), "the input %s was changed to %s", q(string(keep)), q(string(in)))
}

func mutateBytes(r *Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + r.N(4); n > 0; n-- {
		if len(b) == 0 {
			b = append(b, byte(r.N(256)))
			continue
		}
		i := r.N(len(b))
		switch r.N(8) {
		case 0:
			b = b[:i]
		case 1:
			b[i] = byte(r.N(256))
		case 2:
			t := pick(r, soupTokens)
			b = append(b[:i], append([]byte(t), b[i:]...)...)
		case 3:
			j := i + r.N(len(b)-i+1)
			b = append(b[:i], b[j:]...)
		case 4:
			j := i + r.N(len(b)-i+1)
			seg := append([]byte(nil), b[i:j]...)
			k := r.N(len(b) + 1)
			b = append(b[:k], append(seg, b[k:]...)...)
		case 5:
			b[i] = pick(r, []byte("{}[]:,\"'\\<> \n0-"))
		case 6:
			b = append(b[:i], append([]byte{byte(r.N(256))}, b[i:]...)...)
		case 7:
			b[i] ^= 1 << uint(r.N(8))
		}
		if len(b) > 5000 {
			b = b[:5000]
		}
	}
	return b
}

var escapeHeads = []string{`\`, `\u`, `\u1`, `\u12`, `\u123`, `\u1234`, `\uD800`, `\uDC00`, `\uD83D\uDE00`, `\uD83D\u`, `\uD83D\uDE0`, `\uD83D\`, `\uD83D\n`, `\uD83Dx`, `\uD83D\uD83D`, `\uD83D\u0041`, `\uzzzz`, `\u12g4`, `\x`, `\x4`, `\x41`, `\xzz`, `\n`, `\q`, `\0`, `\"`, `\'`, `\\`, "\\\n", "\\\x00", "\\\xff"}

func init() {
	nTok := len(soupTokens)
	register(&Prop{
		ID:   "C01",
		Rule: "token sequences up to length 4 enumerated, plus generated, mutated and random byte strings; distinct inputs that are not empty count as non-trivial",
		Assume: []string{
			"inputs with unclosed brackets are fed to the stream splitter only up to 300 levels, and the pretty and YAML forms are printed up to 300 levels, because their cost grows with the square of the depth",
		},
		MinEv: map[string]int64{"accepted": 20000, "rejected": 20000, "query_accepted": 10000},
		W: []Workload{
			{Name: "soup", N: counts(nTok*nTok*2, nTok*nTok*nTok*2), Run: func(c *Ctx, i int) {
				// the first tokens are given by the index, the rest enumerated
				var head string
				levels := 2
				if c.tier {
					levels = 3
				}
				k := i / 2
				for l := 0; l < levels; l++ {
					head += soupTokens[k%nTok]
					k /= nTok
				}
				if i%2 == 1 {
					// within an object or array
					head = pick(c.R, []string{"{\"k\":", "[", "{", "[1,", "{\"a\":1,"}) + head
				}
				c.Sample("%s + all pairs", q(head))
				parseTotal(c, []byte(head), false)
				for _, a := range soupTokens {
					parseTotal(c, []byte(head+a), false)
					for _, b := range soupTokens {
						c.Distinct(head + a + b)
						parseTotal(c, []byte(head+a+b), false)
					}
				}
			}},
			{Name: "mutated", N: counts(60000, 1500000), Run: func(c *Ctx, i int) {
				v := c.R.doc(genOpt{maxSize: 25, depth: 4})
				in := writeText(c.R, v, pick(c.R, []layout{layoutPlain, layoutWild, {ws: 2, dups: true}}))
				if len(in) > 2000 {
					in = in[:2000]
				}
				b := []byte(in)
				if c.R.P(1, 6) {
					b = append(b, []byte(pick(c.R, soupTokens)+writeText(c.R, c.R.doc(genOpt{maxSize: 10, depth: 3}), layoutWild))...)
				}
				if !c.R.P(1, 8) {
					b = mutateBytes(c.R, b)
				}
				c.Sample("%s", q(string(b)))
				c.Distinct(string(b))
				parseTotal(c, b, false)
			}},
			{Name: "random", N: counts(30000, 600000), Run: func(c *Ctx, i int) {
				n := c.R.size(300)
				b := make([]byte, 0, n)
				mode := c.R.N(4)
				for len(b) < n {
					switch mode {
					case 0:
						b = append(b, byte(c.R.N(256)))
					case 1:
						b = append(b, pick(c.R, soupTokens)...)
					case 2:
						b = append(b, pick(c.R, ambiguous)...)
					default:
						b = append(b, pick(c.R, lits.strs)...)
						b = append(b, pick(c.R, soupTokens)...)
					}
				}
				c.Sample("%s", q(string(b)))
				c.Distinct(string(b))
				parseTotal(c, b, false)
			}},
			{Name: "strings", N: counts(8000, 100000), Run: func(c *Ctx, i int) {
				// escapes cut off everywhere, in every position
				r := c.R
				s := pick(r, []string{"", "{\"a\":", "[", "{", "{\"a\":[\"b\","}) + pick(r, []string{"\"", "'", ""})
				for n := r.N(4); n >= 0; n-- {
					s += pick(r, escapeHeads)
					if r.P(1, 3) {
						s += pick(r, letters)
					}
				}
				s += pick(r, []string{"", "\"", "'", "\"]", "\"}", "\":1}", "'}"})
				c.Distinct(s)
				for cut := 0; cut <= len(s); cut++ {
					parseTotal(c, []byte(s[:cut]), false)
				}
			}},
			{Name: "offsets", N: counts(4000, 60000), Run: func(c *Ctx, i int) {
				v := c.R.doc(genOpt{maxSize: 12, depth: 4})
				b := []byte(writeText(c.R, v, layoutWild))
				if c.R.P(1, 2) {
					b = mutateBytes(c.R, b)
				}
				if len(b) > 150 {
					b = b[:150]
				}
				c.Distinct(string(b))
				for off := 0; off <= len(b); off++ {
					o, _, err := parseOnce(c, b, off)
					c.Ev("offset_parses", 1)
					if err == nil {
						if p := try(func() { useDoc(c, o, true) }); p != nil {
							c.Fail("using the document of %s at %d panics: %v", q(string(b)), off, p)
						}
					}
				}
			}},
			{Name: "references", N: counts(15000, 200000), Run: func(c *Ctx, i int) {
				r := c.R
				var gen func(d int) string
				gen = func(d int) string {
					switch r.N(6) {
					case 0:
						return fmt.Sprintf("<%d>", r.N(4)-1)
					case 1:
						return pick(r, []string{"<>", "<", ">", "<a>", "<1", "<99999999999999999999>", "<-1>", "<0>", "<1.5>", "<<1>>", "<01>"})
					case 2:
						return "1"
					case 3:
						if d > 0 {
							var el []string
							for n := r.N(4); n > 0; n-- {
								el = append(el, gen(d-1))
							}
							return "[" + strings.Join(el, ",") + "]"
						}
					}
					if d <= 0 {
						return "2"
					}
					var mem []string
					if r.P(2, 3) {
						mem = append(mem, "\"___jnid_\":"+pick(r, []string{"1", "2", "3", "0", "-1", "1.5", "\"1\"", "null", "true", "[]", "{}", "<1>", "99999999999999999999", "1e400"}))
					}
					for n := r.N(3); n > 0; n-- {
						mem = append(mem, fmt.Sprintf("%q:%s", pick(r, letters), gen(d-1)))
					}
					mem = shuffled(r, mem)
					return "{" + strings.Join(mem, ",") + "}"
				}
				s := gen(4)
				c.Sample("%s", q(s))
				c.Distinct(s)
				parseTotal(c, []byte(s), false)
			}},
			{Name: "deep", N: counts(60, 400), Run: func(c *Ctx, i int) {
				r := c.R
				n := pick(r, []int{50, 299, 300, 1000, 3000, 10000})
				open := pick(r, []string{"[", "{\"a\":", "[[1],", "{\"a\":[", "[ ", "{\"___jnid_\":7,\"a\":", "[{\"b\":1,\"a\":"})
				if strings.Count(open, "[")+strings.Count(open, "{") > 1 && n > 5000 {
					n = 5000
				}
				var s strings.Builder
				var closers []byte
				for k := 0; k < n; k++ {
					o := open
					if strings.Contains(o, "jnid") {
						o = fmt.Sprintf("{\"___jnid_\":%d,\"a\":", k+1)
					}
					s.WriteString(o)
					for _, ch := range []byte(strings.Replace(o, "[1],", "", 1)) {
						if ch == '[' {
							closers = append(closers, ']')
						} else if ch == '{' {
							closers = append(closers, '}')
						}
					}
				}
				s.WriteString(pick(r, []string{"1", "null", "\"x\"", "[]", "{}", ""}))
				switch r.N(4) {
				case 0: // unclosed
				case 1: // wrong
					s.WriteString(strings.Repeat("]", n))
				default:
					for k := len(closers) - 1; k >= 0; k-- {
						s.WriteByte(closers[k])
					}
				}
				c.Distinct(fmt.Sprint(n, open, s.Len()))
				c.Sample("%s", q(s.String()))
				deep := n > 300
				parseTotal(c, []byte(s.String()), deep)
				c.Ev("deep_inputs", 1)
			}},
			{Name: "big", N: counts(24, 120), Run: func(c *Ctx, i int) {
				r := c.R
				unit := pick(r, []string{"1,", "\"a\",", "{\"k\":1},", "[],", "null,", " ", "\\n", "x", "\"\\u00e9\\\"\",", "-1.5e10,", "é", "\x00"})
				n := 2000 + r.N(60000)
				s := pick(r, []string{"[", "\"", "{\"a\":[", ""}) + strings.Repeat(unit, n/len(unit)) + pick(r, []string{"", "1]", "\"", "1]}"})
				c.Distinct(s)
				parseTotal(c, []byte(s), false)
			}},
			{Name: "query", N: counts(30000, 400000), Run: func(c *Ctx, i int) {
				r := c.R
				var ps []string
				seg := func() string {
					return pick(r, []string{"", "0", "1", "2", "01", "00", "-1", "9", "10", "a", "b", "ab", "9223372036854775807", "9223372036854775808", "99999999999999999999", "+1", "1e3", "%61", "%", "é", "a b", "0x1"})
				}
				for n := r.N(6); n >= 0; n-- {
					k := seg()
					for m := r.N(4); m > 0; m-- {
						k += "." + seg()
					}
					switch r.N(5) {
					case 0:
					case 1:
						k += "="
					default:
						k += "=" + pick(r, []string{"1", "x", "%41", "%", "a=b", "é", "a+b", ";", ""})
					}
					ps = append(ps, k)
				}
				s := strings.Join(ps, pick(r, []string{"&", "&", "&", "&&", ";"}))
				c.Sample("%s", q(s))
				c.Distinct(s)
				parseTotal(c, []byte(s), false)
			}},
		},
	})
}
