package main

import (
	"math"
	"strconv"
	"strings"

	J "yunion.io/x/jsonutils"
)

// neg0 maps negative zeros to zero
func neg0(v *V) *V {
	v = v.clone()
	v.any(func(x *V) bool {
		if x.K == KFloat && x.F == 0 {
			x.F = math.Abs(x.F)
		}
		return false
	})
	return v
}

// walk visits all nodes in order
func (v *V) walk(f func(*V)) {
	f(v)
	for _, x := range v.A {
		x.walk(f)
	}
	if v.K == KDict {
		for _, k := range v.keys() {
			v.M[k].walk(f)
		}
	}
}

// layoutText writes the compact form, and the pretty form for level >= 0
func layoutText(sb *strings.Builder, v *V, level int) {
	tab, nl := "", func() {}
	if level >= 0 {
		tab = strings.Repeat("  ", level)
		nl = func() { sb.WriteString("\n" + tab) }
	}
	sb.WriteString(tab)
	if v.Ref > 0 {
		sb.WriteString("<" + strconv.Itoa(v.Ref) + ">")
		return
	}
	switch v.K {
	case KArr:
		sb.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				sb.WriteByte(',')
			}
			if level >= 0 {
				sb.WriteByte('\n')
				layoutText(sb, x, level+1)
			} else {
				layoutText(sb, x, -1)
			}
		}
		if len(v.A) > 0 {
			nl()
		}
		sb.WriteByte(']')
	case KDict:
		sb.WriteByte('{')
		if v.Id > 0 {
			nl()
			if level >= 0 {
				sb.WriteString("  ")
			}
			sb.WriteString("\"___jnid_\":")
			if level >= 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(strconv.Itoa(v.Id))
		}
		for i, k := range v.keys() {
			if i > 0 || v.Id > 0 {
				sb.WriteByte(',')
			}
			nl()
			if level >= 0 {
				sb.WriteString("  ")
			}
			sb.WriteString(J.NewString(k).String() + ":")
			x := v.M[k]
			switch {
			case level < 0:
				layoutText(sb, x, -1)
			case x.K == KArr || x.K == KDict:
				sb.WriteByte('\n')
				layoutText(sb, x, level+2)
			default:
				sb.WriteByte(' ')
				layoutText(sb, x, 0)
			}
		}
		if len(v.M) > 0 || v.Id > 0 {
			nl()
		}
		sb.WriteByte('}')
	default:
		sb.WriteString(scalarDoc(v).String())
	}
}

// layoutCheck compares the forms with the layout
func layoutCheck(c *Ctx, v *V, forms []string) {
	for k, f := range forms {
		sb := &strings.Builder{}
		layoutText(sb, v, k-1)
		c.Check(sb.String() == f, "the %s form of %s is %s, which is not laid out like %s", []string{"compact", "pretty"}[k], q(v.text()), q(f), q(sb.String()))
		c.Ev("layouts", 1)
	}
}

func roundTrip(c *Ctx, o J.JSONObject, v *V, pretty bool) {
	text := o.String()
	forms := []string{text}
	if pretty {
		forms = append(forms, o.PrettyString())
	}
	layoutCheck(c, v, forms)
	for k, f := range forms {
		name := []string{"compact", "pretty"}[k]
		p, err := J.ParseString(f)
		c.Check(err == nil && p != nil, "the %s form %s does not parse: %v", name, q(f), shortErr(err))
		if d := diff(v, observe(p), numeric); d != "" {
			c.Fail("the %s form does not parse to the same content (document vs parsed): %s; text %s", name, d, q(f))
		}
		again := p.String()
		c.Check(again == text, "printing, parsing (%s form) and printing again gives %s instead of %s", name, q(again), q(text))
		c.Ev("round_trips", 1)
	}
	got, sorted, err := decodeStrict(text, true)
	c.Check(err == nil, "the compact form %s is not readable: %v", q(text), err)
	c.Check(sorted, "the members of %s are not in ascending byte order", q(text))
	if d := diff(v, got, numeric); d != "" {
		c.Fail("the compact form reads as something else: %s; text %s", d, q(text))
	}
	if pretty {
		got, sorted, err := decodeStrict(forms[1], true)
		c.Check(err == nil && sorted && diff(v, got, numeric) == "", "the pretty form %s is not canonical: sorted=%v err=%v", q(forms[1]), sorted, err)
	}
}

func init() {
	register(&Prop{
		ID:   "C05",
		Rule: "documents with arbitrary byte strings built twice along different random routes, printed, parsed and printed again; distinct contents count",
		Assume: []string{
			"negative zeros are left out of the textual comparison (they read as zero)",
		},
		MinEv: map[string]int64{"round_trips": 30000, "built_twice": 10000, "reference_texts": 8000},
		W: []Workload{
			{Name: "documents", N: counts(10000, 1200000), Run: func(c *Ctx, i int) {
				v := neg0(c.R.doc(genOpt{f32: true, maxSize: 60}))
				c.Sample("%s", q(v.text()))
				c.Distinct(v.text())
				a, b := buildVia(c.R, v), buildVia(c.R, v)
				c.Check(a.String() == b.String(), "documents of the same content print differently: %s vs %s", q(a.String()), q(b.String()))
				c.Check(a.PrettyString() == b.PrettyString(), "documents of the same content print differently (pretty): %s vs %s", q(a.PrettyString()), q(b.PrettyString()))
				c.Ev("built_twice", 1)
				roundTrip(c, a, v, true)
				c.Check(a.String() == b.String(), "printing changed the document")
			}},
			{Name: "references", N: counts(6000, 300000), Run: func(c *Ctx, i int) {
				// objects with node ids, and references to them from anywhere
				v := neg0(c.R.doc(genOpt{maxSize: 40}))
				if v.K != KDict {
					v = &V{K: KDict, M: map[string]*V{"x": v}}
				}
				var dicts, slots []*V
				v.walk(func(x *V) {
					if x.K == KDict {
						dicts = append(dicts, x)
					}
					if x.K == KArr || x.K == KDict {
						slots = append(slots, x)
					}
				})
				n := 0
				for _, d := range dicts {
					if c.R.P(1, 2) {
						n++
						d.Id = n
						if c.R.P(1, 10) {
							n += c.R.N(1000000)
						}
					}
				}
				if n == 0 {
					n, v.Id = 1, 1
				}
				for k := c.R.size(6); k >= 0; k-- {
					x, ref := pick(c.R, slots), &V{K: KNull, Ref: pick(c.R, dicts).Id}
					if ref.Ref == 0 {
						ref.Ref = n
					}
					if x.K == KArr {
						x.A = append(x.A, ref)
					} else {
						x.M["r"+strconv.Itoa(k)] = ref
					}
				}
				var forms [2]string
				for k := range forms {
					sb := &strings.Builder{}
					layoutText(sb, v, k-1)
					forms[k] = sb.String()
				}
				c.Distinct(forms[0])
				for k, f := range forms {
					o, err := J.ParseString(f)
					c.Check(err == nil && o != nil, "the text with references %s does not parse: %v", q(f), shortErr(err))
					got := [2]string{o.String(), o.PrettyString()}
					for m := range got {
						c.Check(got[m] == forms[m], "parsing the %s text %s and printing the %s form gives %s instead of %s", []string{"compact", "pretty"}[k], q(f), []string{"compact", "pretty"}[m], q(got[m]), q(forms[m]))
					}
					c.Ev("reference_texts", 1)
				}
			}},
			{Name: "bytes", N: fixed(256 * 2), Run: func(c *Ctx, i int) {
				// every pair of bytes in strings and names
				v := vDict()
				arr := vArr()
				for lo := 0; lo < 256; lo++ {
					s := string([]byte{byte(i), byte(lo)})
					if i >= 256 {
						s = string([]byte{byte(lo)}) + pick(c.R, []string{"", "x", "\\", "\""})
					}
					v.M[s] = vInt(int64(lo))
					arr.A = append(arr.A, vStr(s))
				}
				v.M["list"] = arr
				c.Ev("byte_pairs", 256)
				c.Distinct(v.text())
				roundTrip(c, buildVia(c.R, v), v, true)
			}},
			{Name: "numbers", N: counts(12000, 1000000), Run: func(c *Ctx, i int) {
				var v *V
				switch c.R.N(3) {
				case 0:
					v = vInt(c.R.int64v())
				case 1:
					v = &V{K: KFloat, F: float64(c.R.float32v()), F32: true}
				default:
					v = vFloat(c.R.float())
				}
				v = neg0(v)
				c.Distinct(v.text())
				roundTrip(c, build(v), v, true)
				w := vArr(v, v)
				roundTrip(c, build(w), w, true)
			}},
			{Name: "orders", N: counts(4000, 200000), Run: func(c *Ctx, i int) {
				// the same members added in several orders
				v := neg0(c.R.dict(genOpt{maxSize: 40, depth: 2}))
				first := ""
				for k := 0; k < 5; k++ {
					d := J.NewDict()
					for _, key := range shuffled(c.R, v.keys()) {
						d.Set(key, buildVia(c.R, v.M[key]))
					}
					s := d.String()
					if k == 0 {
						first = s
					}
					c.Check(s == first, "members added in another order print as %s instead of %s", q(s), q(first))
				}
				_, sorted, err := decodeStrict(first, true)
				c.Check(err == nil && sorted, "%s: err %v sorted %v", q(first), err, sorted)
				c.Ev("built_twice", 5)
				c.Distinct(v.text())
			}},
			{Name: "deep", N: counts(8, 100), Run: func(c *Ctx, i int) {
				n := []int{100, 299, 1000, 10000}[i%4]
				v := neg0(c.R.scalar(&genOpt{}))
				for k := 0; k < n; k++ {
					if c.R.P(1, 2) {
						v = vArr(v)
					} else {
						v = &V{K: KDict, M: map[string]*V{pick(c.R, letters): v}}
					}
				}
				c.Distinct(v.text())
				roundTrip(c, build(v), v, n <= 300)
			}},
			{Name: "large", N: counts(40, 160), Run: func(c *Ctx, i int) {
				v := bigCase(c.R, i, genOpt{})
				c.Distinct(v.text())
				roundTrip(c, build(v), v, v.depth() <= 300)
			}},
			{Name: "big", N: counts(16, 100), Run: func(c *Ctx, i int) {
				n := pick(c.R, []int{1000, 1023, 1024, 1025, 4096, 10000, 65536})
				v := vArr()
				if i%2 == 0 {
					for k := 0; k < n; k++ {
						v.A = append(v.A, neg0(c.R.scalar(&genOpt{})))
					}
				} else {
					v = vDict()
					for k := 0; k < n/8; k++ {
						v.M[c.R.okKey(&genOpt{})] = neg0(c.R.scalar(&genOpt{}))
					}
				}
				c.Distinct(v.text())
				roundTrip(c, buildVia(c.R, v), v, true)
			}},
		},
	})
}
