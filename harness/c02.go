package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf16"

	J "yunion.io/x/jsonutils"
)

// expectDoc parses a standard text and compares with what it denotes
func expectDoc(c *Ctx, text string, want *V) {
	o, err := J.Parse([]byte(text))
	c.Check(err == nil && o != nil, "Parse(%s) fails: %v", q(text), err)
	got := observe(o)
	if d := diff(want, got, numericDecode); d != "" {
		c.Fail("Parse(%s) gives something else than the text denotes (expected vs got): %s", q(text), d)
	}
	o2, err := J.ParseString(text)
	c.Check(err == nil && o2 != nil, "ParseString(%s) fails: %v", q(text), err)
	if d := diff(want, observe(o2), numericDecode); d != "" {
		c.Fail("ParseString(%s) gives something else than the text denotes (expected vs got): %s", q(text), d)
	}
}

// numericDecode compares decoded numbers: an integer text must give exactly
// that integer; a float text the nearest double, in whatever kind
const numericDecode = decode

// expectKind: an integer in range is a JSONInt, any other number a JSONFloat,
// at every place
func expectKind(c *Ctx, s string, v *V) {
	is := func(o J.JSONObject, text string) {
		ok := false
		switch o.(type) {
		case *J.JSONInt:
			ok = v.K == KInt
		case *J.JSONFloat:
			ok = v.K == KFloat
		}
		c.Check(ok, "the number %s in %s becomes a %T", s, q(text), o)
	}
	o, err := J.ParseString(s)
	c.Check(err == nil, "%s: %v", s, err)
	is(o, s)
	text := "[" + s + ",{\"a\":" + s + "}]"
	o, err = J.ParseString(text)
	c.Check(err == nil, "%s: %v", text, err)
	x, err := o.GetAt(0)
	c.Check(err == nil, "%s: %v", text, err)
	is(x, text)
	x, err = o.GetAt(1)
	c.Check(err == nil, "%s: %v", text, err)
	x, err = x.Get("a")
	c.Check(err == nil, "%s: %v", text, err)
	is(x, text)
	c.Ev("kinds", 3)
}

// checkRef makes sure that the harness' own expectation is right
func checkRef(c *Ctx, text string, want *V) {
	if !json.Valid([]byte(text)) {
		panic("harness: not a JSON text: " + q(text))
	}
	v, _, err := decodeStrict(text, true)
	if err != nil {
		return // duplicate names
	}
	if d := diff(want, v, numeric); d != "" {
		panic("harness: reference decoder disagrees on " + q(text) + ": " + d)
	}
}

func randNumber(r *Rand) (string, *V) {
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + r.N(10))
		}
		return string(b)
	}
	for {
		s := ""
		if r.P(1, 3) {
			s = "-"
		}
		switch r.N(5) {
		case 0:
			s += "0"
		case 1: // around the limits
			s += pick(r, []string{"9223372036854775807", "9223372036854775808", "9223372036854775806", "9223372036854775809", "18446744073709551615", "18446744073709551616", "9007199254740993", "9999999999999999999", "10000000000000000000", "999999999999999999", "4294967296", "2147483648"})
		default:
			s += string(byte('1'+r.N(9))) + digits(r.N(24))
		}
		plain := true
		if r.P(1, 2) {
			s += "." + digits(1+r.N(25))
			plain = false
		}
		if r.P(1, 3) {
			s += pick(r, []string{"e", "E"}) + pick(r, []string{"", "+", "-"}) + pick(r, []string{strconv.Itoa(r.N(20)), strconv.Itoa(r.N(340)), "0" + strconv.Itoa(r.N(30)), "0", "00"})
			plain = false
		}
		if plain {
			if n, ok := new(big.Int).SetString(s, 10); ok && n.IsInt64() {
				return s, vInt(n.Int64())
			}
		}
		// the nearest double by exact rational arithmetic
		x, ok := new(big.Rat).SetString(s)
		if !ok {
			panic("harness: number " + s)
		}
		f, _ := x.Float64()
		if math.IsInf(f, 0) || f == 0 && x.Sign() != 0 {
			continue
		}
		return s, vFloat(f)
	}
}

func init() {
	register(&Prop{
		ID:   "C02",
		Rule: "RFC 8259 texts written from known values in random layouts, escapes, number spellings and member orders, all \\uXXXX escapes and all single characters enumerated; distinct texts count",
		Assume: []string{
			"lone surrogate escapes and numbers outside the double range (overflow or underflow) denote nothing and are left out",
			"the expectation is the generator's own value, cross-checked with encoding/json.Valid and an independent decoder",
		},
		MinEv: map[string]int64{"texts": 50000, "escapes": 60000},
		W: []Workload{
			{Name: "documents", N: counts(60000, 1500000), Run: func(c *Ctx, i int) {
				o := genOpt{maxSize: 60}
				if c.R.P(2, 3) {
					o.str = sUTF8
				}
				v := c.R.doc(o)
				l := pick(c.R, []layout{layoutPlain, layoutWild, {ws: 1}, {escapes: true}, {ws: 2, dups: true, nums: true, escapes: true}, {ws: 40}})
				t := &texter{r: c.R, l: l}
				t.ws()
				t.val(v, 0)
				t.ws()
				text := t.sb.String()
				checkRef(c, strings.ToValidUTF8(text, "?"), observeUTF8(v))
				c.Sample("%s", q(text))
				c.Distinct(text)
				c.Ev("texts", 1)
				c.Ev("values", v.size())
				expectDoc(c, text, v)
			}},
			{Name: "variants", N: counts(10000, 200000), Run: func(c *Ctx, i int) {
				// one value, several texts: all the same result
				v := c.R.doc(genOpt{maxSize: 30, str: sUTF8})
				for k := 0; k < 4; k++ {
					text := writeText(c.R, v, layout{ws: k, escapes: k > 0, nums: k > 1, dups: k == 3})
					c.Distinct(text)
					c.Ev("texts", 1)
					expectDoc(c, text, v)
				}
			}},
			{Name: "numbers", N: counts(60000, 1000000), Run: func(c *Ctx, i int) {
				s, v := randNumber(c.R)
				c.Sample("%s", s)
				c.Distinct(s)
				c.Ev("numbers", 1)
				expectKind(c, s, v)
				expectDoc(c, s, v)
				expectDoc(c, "["+s+"]", vArr(v))
				expectDoc(c, "{\"n\":"+s+",\"m\": "+s+" }", &V{K: KDict, M: map[string]*V{"n": v, "m": v}})
			}},
			{Name: "numberedges", N: fixed(4000), Run: func(c *Ctx, i int) {
				// all powers of two and ten and their neighbours
				var n *big.Int
				if i < 140 {
					n = new(big.Int).Lsh(big.NewInt(1), uint(i/2))
				} else {
					n = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(i%40)), nil)
				}
				n.Add(n, big.NewInt(int64(i%7-3)))
				if i%2 == 1 {
					n.Neg(n)
				}
				s := n.String()
				var v *V
				if n.IsInt64() {
					v = vInt(n.Int64())
				} else {
					f, _ := new(big.Float).SetInt(n).Float64()
					v = vFloat(f)
				}
				c.Distinct(s)
				expectKind(c, s, v)
				expectDoc(c, s, v)
				expectDoc(c, "["+s+",\n"+s+"]", vArr(v, v))
			}},
			{Name: "escapes", N: fixed(256), Run: func(c *Ctx, i int) {
				// all escapes \uXXXX, lone surrogates left out
				for lo := 0; lo < 256; lo++ {
					u := rune(i<<8 | lo)
					if utf16.IsSurrogate(u) {
						continue
					}
					c.Ev("escapes", 1)
					c.Distinct("u", string(u))
					want := string(u)
					for _, f := range []string{"\"\\u%04x\"", "\"a\\u%04Xb\"", "\"\\n\\u%04x\\\\\""} {
						text := fmt.Sprintf(f, u)
						var exp string
						if err := json.Unmarshal([]byte(text), &exp); err != nil {
							panic("harness: " + err.Error())
						}
						if !strings.Contains(exp, want) {
							panic("harness: escape")
						}
						expectDoc(c, text, vStr(exp))
						expectDoc(c, "{"+text+":["+text+"]}", &V{K: KDict, M: map[string]*V{exp: vArr(vStr(exp))}})
					}
				}
			}},
			{Name: "pairs", N: fixed(1024), Run: func(c *Ctx, i int) {
				// surrogate pairs: every high one with boundary and sampled low ones
				for k := 0; k < 24; k++ {
					lo := []int{0, 1, 0x3ff, 0x3fe, 0x200}[k%5]
					if k >= 5 {
						lo = c.R.N(0x400)
					}
					r := utf16.DecodeRune(rune(0xd800+i), rune(0xdc00+lo))
					text := fmt.Sprintf("\"%s\\u%04x\\u%04X%s\"", pick(c.R, []string{"", "x"}), 0xd800+i, 0xdc00+lo, pick(c.R, []string{"", "y", "\\u0041", "\\n"}))
					var exp string
					if err := json.Unmarshal([]byte(text), &exp); err != nil || !strings.ContainsRune(exp, r) {
						panic("harness: pair")
					}
					c.Ev("pairs", 1)
					c.Distinct(text)
					expectDoc(c, text, vStr(exp))
				}
			}},
			{Name: "rawchars", N: fixed(0x110000 / 256), Run: func(c *Ctx, i int) {
				// every character unescaped
				for lo := 0; lo < 256; lo++ {
					u := rune(i<<8 | lo)
					if u < 0x20 || u == '"' || u == '\\' || utf16.IsSurrogate(u) {
						continue
					}
					s := string(u)
					c.Ev("characters", 1)
					c.Distinct(s)
					expectDoc(c, "\""+s+"\"", vStr(s))
					if u < 0x3000 || c.R.P(1, 50) {
						expectDoc(c, "{\"a"+s+"\" : \""+s+s+"\"}", &V{K: KDict, M: map[string]*V{"a" + s: vStr(s + s)}})
					}
				}
			}},
			{Name: "deep", N: counts(40, 200), Run: func(c *Ctx, i int) {
				n := []int{100, 1000, 5000, 10000}[i%4]
				v := c.R.scalar(&genOpt{str: sUTF8})
				for k := 0; k < n; k++ {
					if c.R.P(1, 2) {
						v = vArr(v)
					} else {
						v = &V{K: KDict, M: map[string]*V{pick(c.R, letters): v}}
					}
				}
				text := writeText(c.R, v, layout{ws: 1})
				c.Distinct(text)
				c.Ev("deep", 1)
				o, err := J.ParseString(text)
				c.Check(err == nil, "a text nested %d levels deep is rejected: %v", n, shortErr(err))
				if d := diff(v, observe(o), decode); d != "" {
					c.Fail("a text nested %d levels deep is decoded wrong: %s", n, clip(d, 500))
				}
			}},
			{Name: "large", N: counts(40, 160), Run: func(c *Ctx, i int) {
				v := bigCase(c.R, i, genOpt{str: sUTF8})
				text := writeText(c.R, v, layout{ws: 1, escapes: i%2 == 0})
				c.Distinct(text)
				expectDoc(c, text, v)
			}},
			{Name: "big", N: counts(30, 150), Run: func(c *Ctx, i int) {
				n := pick(c.R, []int{1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 100000})
				var v *V
				switch i % 3 {
				case 0:
					v = vArr()
					for k := 0; k < n; k++ {
						v.A = append(v.A, c.R.scalar(&genOpt{}))
					}
				case 1:
					if n > 10000 {
						n = 10000
					}
					v = vDict()
					for k := 0; k < n; k++ {
						v.M["m"+strconv.Itoa(c.R.N(n*3))] = vInt(int64(k))
					}
				default:
					v = vStr(strings.Repeat(pick(c.R, []string{"a", "é", "\n", "\"", "\\", "\x01", "\U0001F600"}), n))
				}
				text := writeText(c.R, v, layout{ws: 1, escapes: true})
				c.Distinct(text)
				expectDoc(c, text, v)
			}},
		},
	})
}

func shortErr(err error) string {
	if err == nil {
		return "<nil>"
	}
	return clip(err.Error(), 300)
}

// observeUTF8 is the model with the invalid bytes replaced the way
// strings.ToValidUTF8 replaces them in the text; nil when that is ambiguous
func observeUTF8(v *V) *V {
	ret := *v
	switch v.K {
	case KStr:
		ret.S = strings.ToValidUTF8(v.S, "?")
	case KArr:
		ret.A = nil
		for _, x := range v.A {
			ret.A = append(ret.A, observeUTF8(x))
		}
	case KDict:
		ret.M = map[string]*V{}
		for k, x := range v.M {
			ret.M[strings.ToValidUTF8(k, "?")] = observeUTF8(x)
		}
	}
	return &ret
}
