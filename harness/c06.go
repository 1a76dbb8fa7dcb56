package main

import (
	"bytes"
	"strings"

	J "yunion.io/x/jsonutils"
)

// fragments that are malformed whatever follows, with one opening bracket
var fragments = []string{"{1}", "[1 2]", "{\"a\" 1}", "{\"a\":1 \"b\":2}", "[1}", "{\"k\" ]", "{\"a\":1]", "[\"a\" \"b\"]", "[1:2]", "{:x y", "{a b:1}", "[true false]", "{\"a\":\"\\u12g4\"}", "[\"\\xzz\"]", "{,}", "[1 :", "{\"a\"}", "{\"a\",\"b\"}", "[\"\\uzzzz\"", "[<x>]", "{\"a\":<y>}"}

// beginnings of documents, and texts that no document goes on with after a
// member or element
var openings = []string{"[", "[[", "[1,", "[ \"a\", ", "{\"a\":", "{\"a\":1,\"b\" : ", "{\"p\":[", "[{\"q\":", "[[[[[[", "{\"a\":{\"b\":"}
var breaks = []string{"x", " y ", ":", ";", " \"", "'", "\\", "1", " null", "<", "\x00"}

var separators = []string{"", " ", "\n", "\r\n", "\t \n", "\n\n\n", ",", ";", "}", "]", "]]}}", "garbage", "\"", "'", "\\", "null", "12", "a:b,", "<1>", "\"unclosed", "é\x00\xff", "// comment\n", "-- \n"}

func init() {
	container := func(r *Rand, o genOpt) *V {
		for {
			if v := r.doc(o); v.K == KArr || v.K == KDict {
				return v
			}
		}
	}
	register(&Prop{
		ID:   "C06",
		Rule: "buffers of known documents in random layouts with separators, garbage and malformed fragments between them, split and parsed at each offset; distinct buffers count",
		Assume: []string{
			"an unquoted scalar at an offset is followed by white space, a comma or a closing bracket, otherwise what follows belongs to it",
		},
		MinEv: map[string]int64{"stream_documents": 50000, "offset_documents": 50000},
		W: []Workload{
			{Name: "streams", N: counts(40000, 800000), Run: func(c *Ctx, i int) {
				r := c.R
				var buf bytes.Buffer
				var want []*V
				bad := 0
				withBad := r.P(1, 2)
				n := r.size(40)
				o := genOpt{maxSize: 10, depth: 4}
				sep := func() {
					for k := r.N(3); k > 0; k-- {
						if r.P(1, 4) {
							s := r.str(sAny)
							s = strings.NewReplacer("[", "(", "{", "(").Replace(s)
							if len(s) < 60 {
								buf.WriteString(s)
							}
						} else {
							buf.WriteString(pick(r, separators))
						}
					}
				}
				dense := r.P(1, 8)
				if dense {
					o.maxSize, o.depth = 4, 2
				}
				sep()
				for k := 0; k < n; k++ {
					for withBad && r.P(1, 4) || dense && r.P(2, 3) {
						buf.WriteString(pick(r, fragments))
						bad++
						sep()
					}
					if (withBad || dense) && r.P(1, 5) {
						// a fragment that begins like a document and takes in the
						// documents that follow until it breaks
						buf.WriteString(pick(r, openings))
						for m := 1 + r.N(3); m > 0; m-- {
							v := container(r, o)
							buf.WriteString(writeText(r, v, pick(r, []layout{layoutPlain, layoutWild})))
							want = append(want, v)
							buf.WriteString(pick(r, breaks))
						}
						bad++
						sep()
					}
					v := container(r, o)
					buf.WriteString(writeText(r, v, pick(r, []layout{layoutPlain, layoutWild})))
					want = append(want, v)
					sep()
				}
				if withBad && r.P(1, 3) {
					buf.WriteString(pick(r, fragments))
					bad++
				}
				if r.P(1, 6) {
					// a document cut off at the end of the buffer
					buf.WriteString(pick(r, []string{"{", "[", "{\"a\"", "{\"a\":1", "[1,2", "[\"abc", "{\"a\":\"x\","}))
					bad++
				}
				in := buf.Bytes()
				keep := string(in)
				c.Sample("%d documents, %d malformed fragments: %s", len(want), bad, q(keep))
				c.Distinct(keep)
				got, err := J.ParseJsonStreams(in)
				c.Check(string(in) == keep, "ParseJsonStreams changed its input")
				c.Ev("stream_documents", len(want))
				c.Ev("malformed_fragments", bad)
				if len(want) == 0 {
					if bad > 0 {
						c.Check(err != nil && len(got) == 0, "a stream of malformed documents only, %s, gives %d documents and the error %v", q(keep), len(got), err)
					} else {
						c.Check(err == nil && len(got) == 0, "a stream without documents, %s, gives %d documents and the error %v", q(keep), len(got), err)
					}
					return
				}
				c.Check(err == nil, "splitting %s with %d documents and %d malformed fragments fails: %v", q(keep), len(want), bad, shortErr(err))
				c.Check(len(got) == len(want), "splitting %s gives %d documents instead of %d", q(keep), len(got), len(want))
				for k := range want {
					if d := diff(want[k], observe(got[k]), decode); d != "" {
						c.Fail("document %d of the stream %s (expected vs got): %s", k, q(keep), d)
					}
				}
			}},
			{Name: "offsets", N: counts(40000, 800000), Run: func(c *Ctx, i int) {
				r := c.R
				v := r.doc(genOpt{maxSize: 15, depth: 4})
				pre := pick(r, []string{"", " ", "{\"a\":", "[1,2]", "garbage ", "\"x", "[[[", "}}}", "\xff\x00", strings.Repeat("y", r.size(300))})
				ws := pick(r, []string{"", "", " ", "\n\t\r "})
				text := writeText(r, v, pick(r, []layout{layoutPlain, layoutWild}))
				post := pick(r, []string{"", " ", "\n", ",", "}", "]", " x", "\n{\"a\":1}", "]]", ",1"})
				if v.K == KArr || v.K == KDict || v.K == KStr {
					post = pick(r, []string{"", " ", "x", "\"", "'", "{", "[", "[1]", "{\"z\":2}", "}", "]", ":", ",", "\\", "\x00", "\xff", "1", "null", text})
				}
				in := []byte(pre + ws + text + post)
				keep := string(in)
				c.Distinct(keep)
				c.Ev("offset_documents", 1)
				c.Sample("at %d: %s", len(pre), q(keep))
				alone, aerr := J.ParseString(text)
				c.Check(aerr == nil, "Parse(%s) fails: %v", q(text), aerr)
				o, end, err := J.ParseStream(in, len(pre))
				c.Check(err == nil && o != nil, "ParseStream(%s, %d) fails: %v", q(keep), len(pre), shortErr(err))
				c.Check(string(in) == keep, "ParseStream changed its input")
				if d := diff(v, observe(o), decode); d != "" {
					c.Fail("ParseStream(%s, %d) (expected vs got): %s", q(keep), len(pre), d)
				}
				if d := diff(observe(alone), observe(o), exact); d != "" {
					c.Fail("ParseStream(%s, %d) differs from parsing the document alone: %s", q(keep), len(pre), d)
				}
				c.Check(end == len(pre+ws+text), "ParseStream(%s, %d) reports the end %d instead of %d", q(keep), len(pre), end, len(pre+ws+text))
			}},
			{Name: "chain", N: counts(4000, 60000), Run: func(c *Ctx, i int) {
				// walking a buffer document by document with the reported ends
				r := c.R
				var want []*V
				var sb strings.Builder
				for n := r.size(60); n >= 0; n-- {
					v := r.doc(genOpt{maxSize: 8, depth: 3})
					sb.WriteString(writeText(r, v, layoutWild))
					want = append(want, v)
					if v.K == KArr || v.K == KDict || v.K == KStr {
						sb.WriteString(pick(r, []string{"", " ", "\n"}))
					} else {
						sb.WriteString(pick(r, []string{" ", "\n", "\r\n\t"}))
					}
				}
				in := []byte(sb.String())
				c.Distinct(sb.String())
				off := 0
				for k, v := range want {
					o, end, err := J.ParseStream(in, off)
					c.Check(err == nil, "document %d of the chain %s at %d: %v", k, q(sb.String()), off, shortErr(err))
					if d := diff(v, observe(o), decode); d != "" {
						c.Fail("document %d of the chain %s at %d (expected vs got): %s", k, q(sb.String()), off, d)
					}
					c.Check(end > off, "no progress at %d", off)
					off = end
					c.Ev("offset_documents", 1)
				}
			}},
			{Name: "big", N: counts(12, 60), Run: func(c *Ctx, i int) {
				r := c.R
				n := pick(r, []int{1000, 2000, 5000, 40000})
				var sb, want strings.Builder
				bad := 0
				if i%2 == 1 {
					bad = pick(r, []int{1, 3, 10})
				}
				nbad := 0
				for k := 0; k < n; k++ {
					for bad > 0 && r.P(bad, 4+bad) {
						sb.WriteString(pick(r, fragments))
						nbad++
					}
					d := pick(r, []string{"{\"n\":1}\n", "[1]\n", "{}", "[] ", "[[]]"})
					sb.WriteString(d)
					want.WriteString(strings.TrimSpace(d))
				}
				got, err := J.ParseJsonStreams([]byte(sb.String()))
				c.Check(err == nil && len(got) == n, "a stream of %d documents and %d malformed fragments gives %d documents, error %v", n, nbad, len(got), shortErr(err))
				c.Ev("malformed_fragments", nbad)
				var out strings.Builder
				for _, g := range got {
					out.WriteString(g.String())
				}
				c.Check(out.String() == want.String(), "a stream of %d documents is split wrong", n)
				c.Ev("stream_documents", n)
				c.Distinct(sb.String())
			}},
		},
	})
}
