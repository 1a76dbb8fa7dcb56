package main

import (
	"encoding/json"
	"strconv"
	"strings"

	J "yunion.io/x/jsonutils"
)

func printedValid(c *Ctx, form, text string, v *V) {
	c.Check(json.Valid([]byte(text)), "the %s form of %s is not valid JSON: %s", form, q(v.text()), q(text))
	got, _, err := decodeStrict(text, false)
	c.Check(err == nil, "the %s form of %s is not a valid RFC 8259 text: %v: %s", form, q(v.text()), err, q(text))
	if d := diff(v, got, numeric); d != "" {
		c.Fail("the %s form of the document reads as something else (document vs text): %s; text %s", form, d, q(text))
	}
}

func printCheck(c *Ctx, o J.JSONObject, v *V, pretty bool) {
	printedValid(c, "compact", o.String(), v)
	c.Ev("printed_compact", 1)
	if pretty {
		printedValid(c, "pretty", o.PrettyString(), v)
		c.Ev("printed_pretty", 1)
	}
	c.Ev("values", v.size())
}

func init() {
	register(&Prop{
		ID:   "C04",
		Rule: "documents built along random routes from known content, printed compact and pretty, every Unicode scalar value as name and string enumerated; distinct contents count",
		Assume: []string{
			"strings are UTF-8 and numbers finite, as stated; a negative zero equals zero; 32 bit floats are compared as 32 bit floats",
			"the pretty form is printed up to 300 levels (its size grows with the square of the depth)",
		},
		MinEv: map[string]int64{"printed_compact": 20000, "printed_pretty": 20000, "characters": 1000000},
		W: []Workload{
			{Name: "documents", N: counts(14000, 1200000), Run: func(c *Ctx, i int) {
				v := c.R.doc(genOpt{str: sUTF8, f32: true, maxSize: 70})
				c.Sample("%s", q(v.text()))
				c.Distinct(v.text())
				printCheck(c, buildVia(c.R, v), v, true)
			}},
			{Name: "nested", N: counts(8000, 400000), Run: func(c *Ctx, i int) {
				// every kind of child in every kind of parent
				o := &genOpt{str: sUTF8, f32: true}
				leaf := func() *V {
					switch c.R.N(8) {
					case 0:
						return vArr()
					case 1:
						return vDict()
					default:
						return c.R.scalar(o)
					}
				}
				v := leaf()
				for d := c.R.N(6); d >= 0; d-- {
					if c.R.P(1, 2) {
						v = vArr(v)
						for c.R.P(1, 3) {
							v.A = append(v.A, leaf())
						}
						c.R.Shuffle(len(v.A), func(i, j int) { v.A[i], v.A[j] = v.A[j], v.A[i] })
					} else {
						v = &V{K: KDict, M: map[string]*V{c.R.okKey(o): v}}
						for c.R.P(1, 3) {
							v.M[c.R.okKey(o)] = leaf()
						}
					}
				}
				c.Distinct(v.text())
				printCheck(c, buildVia(c.R, v), v, true)
			}},
			{Name: "characters", N: fixed(0x110000 / 256), Run: func(c *Ctx, i int) {
				v := vDict()
				arr := vArr()
				for lo := 0; lo < 256; lo++ {
					u := rune(i<<8 | lo)
					if u >= 0xd800 && u <= 0xdfff {
						continue
					}
					s := string(u)
					c.Ev("characters", 1)
					v.M[s] = vStr(s)
					arr.A = append(arr.A, vStr("a"+s+"b"))
				}
				v.M["list"] = arr
				c.Distinct(strconv.Itoa(i))
				printCheck(c, build(v), v, true)
				if i < 16 {
					for _, s := range arr.A {
						printCheck(c, build(s), s, true)
						d := &V{K: KDict, M: map[string]*V{s.S: s}}
						printCheck(c, build(d), d, true)
					}
				}
			}},
			{Name: "numbers", N: counts(10000, 500000), Run: func(c *Ctx, i int) {
				var v *V
				switch c.R.N(3) {
				case 0:
					v = vInt(c.R.int64v())
				case 1:
					v = &V{K: KFloat, F: float64(c.R.float32v()), F32: true}
				default:
					v = vFloat(c.R.float())
				}
				c.Distinct(v.text())
				printCheck(c, build(v), v, true)
				w := vArr(v, &V{K: KDict, M: map[string]*V{"n": v}})
				printCheck(c, build(w), w, true)
			}},
			{Name: "deep", N: counts(16, 200), Run: func(c *Ctx, i int) {
				n := []int{100, 299, 1000, 10000}[i%4]
				v := c.R.scalar(&genOpt{str: sUTF8})
				for k := 0; k < n; k++ {
					if c.R.P(1, 2) {
						v = vArr(v)
					} else {
						v = &V{K: KDict, M: map[string]*V{pick(c.R, letters): v}}
					}
				}
				c.Distinct(v.text())
				o := build(v)
				text := o.String()
				got, _, err := decodeStrict(text, false)
				c.Check(err == nil, "the compact form of a document nested %d levels deep is invalid: %v", n, err)
				if d := diff(v, got, numeric); d != "" {
					c.Fail("the compact form of a document nested %d levels deep reads as something else: %s", n, clip(d, 600))
				}
				c.Ev("deep", 1)
				if n <= 300 {
					printCheck(c, o, v, true)
				}
			}},
			{Name: "large", N: counts(40, 160), Run: func(c *Ctx, i int) {
				v := bigCase(c.R, i, genOpt{str: sUTF8})
				c.Distinct(v.text())
				printCheck(c, build(v), v, v.depth() <= 3100)
			}},
			{Name: "big", N: counts(24, 200), Run: func(c *Ctx, i int) {
				n := pick(c.R, []int{1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 65535, 65536, 65537})
				var v *V
				switch i % 3 {
				case 0:
					v = vArr()
					for k := 0; k < n; k++ {
						v.A = append(v.A, c.R.scalar(&genOpt{str: sUTF8}))
					}
				case 1:
					v = vDict()
					for k := 0; k < n/8; k++ {
						v.M[c.R.okKey(&genOpt{str: sUTF8})+strconv.Itoa(k)] = c.R.scalar(&genOpt{str: sUTF8})
					}
				default:
					v = vStr(strings.Repeat(pick(c.R, []string{"a", "é", "\n", "\"", "\\", "\x01", "\U0001F600"}), n))
				}
				c.Distinct(v.text())
				printCheck(c, build(v), v, true)
			}},
		},
	})
}
