package main

import (
	"fmt"
	"net/url"
	"regexp"
	"strconv"
	"strings"

	J "yunion.io/x/jsonutils"
)

var reNumName = regexp.MustCompile(`^[+-]?[0-9]+$`)

// texts is the content that a query string carries: every scalar as its text
func texts(v *V) *V {
	switch v.K {
	case KArr:
		ret := vArr()
		for _, x := range v.A {
			ret.A = append(ret.A, texts(x))
		}
		return ret
	case KDict:
		ret := vDict()
		for k, x := range v.M {
			ret.M[k] = texts(x)
		}
		return ret
	case KNull:
		return vStr("")
	case KBool:
		return vStr(strconv.FormatBool(v.B))
	case KInt:
		return vStr(strconv.FormatInt(v.I, 10))
	case KFloat:
		return &V{K: KFloat, F: v.F}
	}
	return v
}

// diffTexts compares, where a float is read back as a text that spells it
func diffTexts(want, got *V, path string) string {
	if want.K == KFloat {
		if got.K != KStr {
			return fmt.Sprintf("at %s: %s instead of a text of %v", path, got.brief(), want.F)
		}
		f, err := strconv.ParseFloat(got.S, 64)
		if err != nil || f != want.F {
			return fmt.Sprintf("at %s: %q instead of a text of %v", path, got.S, want.F)
		}
		return ""
	}
	if want.K != got.K {
		return fmt.Sprintf("at %s: %s instead of %s", path, got.brief(), want.brief())
	}
	switch want.K {
	case KArr:
		if len(want.A) != len(got.A) {
			return fmt.Sprintf("at %s: %d elements instead of %d", path, len(got.A), len(want.A))
		}
		for i := range want.A {
			if d := diffTexts(want.A[i], got.A[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case KDict:
		for _, k := range want.keys() {
			g, ok := got.M[k]
			if !ok {
				return fmt.Sprintf("at %s: no member %q", path, k)
			}
			if d := diffTexts(want.M[k], g, path+"."+strconv.Quote(k)); d != "" {
				return d
			}
		}
		for k := range got.M {
			if want.M[k] == nil {
				return fmt.Sprintf("at %s: a member %q more", path, k)
			}
		}
	default:
		return diffAt(want, got, exact, path)
	}
	return ""
}

// queryEscape escapes in one of the equivalent ways
func (r *Rand) queryEscape(s string) string {
	var sb strings.Builder
	all := r.P(1, 5)
	for i := 0; i < len(s); i++ {
		b := s[i]
		safe := b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_' || b == '-' || b == '.'
		switch {
		case safe && !all:
			sb.WriteByte(b)
		case b == ' ' && r.P(1, 2):
			sb.WriteByte('+')
		case strings.IndexByte("/?:@!$'()*,~|^\"<>[]{}", b) >= 0 && r.P(1, 3):
			// not reserved between parameters
			sb.WriteByte(b)
		case r.P(1, 2):
			fmt.Fprintf(&sb, "%%%02x", b)
		default:
			fmt.Fprintf(&sb, "%%%02X", b)
		}
	}
	return sb.String()
}

// params writes the parameters of the content, one group per name
func (r *Rand) params(v *V, name string, out *[][]string) {
	one := func(s string) string {
		if s == "" && r.P(1, 2) {
			return r.queryEscape(name)
		}
		return r.queryEscape(name) + "=" + r.queryEscape(s)
	}
	switch v.K {
	case KArr:
		flat := len(v.A) >= 2
		for _, x := range v.A {
			flat = flat && x.K == KStr
		}
		if flat && r.P(1, 2) {
			var g []string
			for _, x := range v.A {
				g = append(g, one(x.S))
			}
			*out = append(*out, g)
			return
		}
		for i, x := range v.A {
			r.params(x, name+"."+strconv.Itoa(i), out)
		}
	case KDict:
		for _, k := range v.keys() {
			n := k
			if name != "" {
				n = name + "." + k
			}
			r.params(v.M[k], n, out)
		}
	case KFloat:
		*out = append(*out, []string{one(strconv.FormatFloat(v.F, 'g', -1, 64))})
	default:
		*out = append(*out, []string{one(v.S)})
	}
}

// interleave merges the groups at random, keeping the order within each
func (r *Rand) interleave(groups [][]string) []string {
	var ret []string
	var tickets []int
	for i, g := range groups {
		for range g {
			tickets = append(tickets, i)
		}
	}
	pos := make([]int, len(groups))
	for _, i := range shuffled(r, tickets) {
		ret = append(ret, groups[i][pos[i]])
		pos[i]++
	}
	return ret
}

// numberNames renames members to numbers and what looks like them
func (r *Rand) numberNames(x *V) {
	for _, y := range x.A {
		r.numberNames(y)
	}
	for _, k := range x.keys() {
		r.numberNames(x.M[k])
		n := pick(r, []string{"1", "2", "9", "10", "11", "100", "-1", "-0", "00", "01", "+1", "007", "1000", "1001", "12345678901", "9223372036854775807", "9223372036854775808", "99999999999999999999", "1_0", "0x1", "1e3"})
		if r.P(1, 3) && x.M[n] == nil {
			x.M[n] = x.M[k]
			delete(x.M, k)
		}
	}
}

func queryDoc(r *Rand) *V {
	numbers := r.P(1, 4)
	v := r.dict(genOpt{maxSize: 40, depth: 5, noEmpty: true, keyOK: func(k string) bool {
		return k != "" && !strings.Contains(k, ".") && (numbers && k != "0" || !reNumName.MatchString(k))
	}})
	if numbers {
		r.numberNames(v)
		if r.P(1, 3) && v.M["0"] == nil {
			// not inside another
			v.M["0"] = vStr(r.str(sAny))
		}
	}
	return v
}

func init() {
	parse := func(c *Ctx, qs string) *V {
		o, err := J.ParseQueryString(qs)
		c.Check(err == nil && o != nil, "ParseQueryString(%s) fails: %v", q(qs), shortErr(err))
		c.Ev("parsed", 1)
		return observe(o)
	}
	note := func(c *Ctx, v *V) {
		c.Ev("parameters", v.size())
		if v.any(func(x *V) bool { return x.K == KArr && len(x.A) > 10 }) {
			c.Ev("long_lists", 1)
		}
		for _, k := range []string{"1", "2", "10", "01", "-1"} {
			if v.any(func(x *V) bool { return x.K == KDict && x.M[k] != nil }) {
				c.Ev("number_names", 1)
			}
		}
		if v.any(func(x *V) bool {
			return x.K == KArr && len(x.A) > 1 && x.any(func(y *V) bool { return y != x && (y.K == KArr || y.K == KDict) })
		}) {
			c.Ev("lists_of_containers", 1)
		}
	}
	register(&Prop{
		ID:   "C17",
		Rule: "documents written as query strings by the library and by an independent writer, with the parameters in shuffled order and in all equivalent escapes, parsed and compared with the content; distinct query strings count",
		Assume: []string{
			"no parameter names both a scalar and a container, and none skips an element of a list; no name inside another is the number 0",
		},
		MinEv: map[string]int64{"parsed": 100000, "long_lists": 5000, "lists_of_containers": 10000, "number_names": 10000, "malformed": 2000},
		W: []Workload{
			{Name: "malformed", N: counts(4000, 60000), Run: func(c *Ctx, i int) {
				// broken escapes, which the standard library reports
				r := c.R
				qs := queryDoc(r)
				text := build(qs).QueryString()
				bad := pick(r, []string{"%", "%z", "%4", "%zz", "%4g", "%g4", "%%", "%-1", "% 1"})
				switch at := r.N(len(text) + 1); r.N(3) {
				case 0:
					text = text[:at] + bad + text[at:]
				case 1:
					text += "&a=" + bad
				default:
					text = bad + "=1&" + text
				}
				if _, err := url.ParseQuery(text); err == nil {
					return
				}
				c.Distinct(text)
				c.Ev("malformed", 1)
				o, err := J.ParseQueryString(text)
				c.Check(err != nil, "the malformed query string %s is taken as %v", q(text), o)
			}},
			{Name: "roundtrip", N: counts(60000, 800000), Run: func(c *Ctx, i int) {
				r := c.R
				v := queryDoc(r)
				want := texts(v)
				doc := buildVia(r, v)
				note(c, v)
				qs := doc.QueryString()
				c.Distinct(qs)
				c.Sample("%s", q(qs))
				c.Note("%s -> %s", v.text(), qs)
				if d := diffTexts(want, parse(c, qs), "$"); d != "" {
					c.Fail("the query string %s of %s is parsed wrong: %s", q(qs), v.brief(), d)
				}
				for i := 0; i < len(qs); i++ {
					if qs[i] <= 0x20 || qs[i] >= 0x7f {
						c.Fail("the query string %s has an unescaped byte %x", q(qs), qs[i])
					}
				}
				if qs == "" {
					return
				}
				parts := shuffled(r, strings.Split(qs, "&"))
				if d := diffTexts(want, parse(c, strings.Join(parts, "&")), "$"); d != "" {
					c.Fail("the query string %s with its parameters in another order is parsed wrong: %s", q(strings.Join(parts, "&")), d)
				}
				parts = strings.Split(qs, "&")
				for a, b := 0, len(parts)-1; a < b; a, b = a+1, b-1 {
					parts[a], parts[b] = parts[b], parts[a]
				}
				if d := diffTexts(want, parse(c, strings.Join(parts, "&")), "$"); d != "" {
					c.Fail("the query string %s with its parameters reversed is parsed wrong: %s", q(strings.Join(parts, "&")), d)
				}
				if d := diff(v, observe(doc), exact); d != "" {
					c.Fail("writing a query string changed the document: %s", d)
				}
			}},
			{Name: "spelled", N: counts(60000, 800000), Run: func(c *Ctx, i int) {
				r := c.R
				want := texts(queryDoc(r))
				note(c, want)
				var groups [][]string
				r.params(want, "", &groups)
				ps := r.interleave(groups)
				if r.P(1, 10) {
					// empty parameters mean nothing
					k := r.N(len(ps) + 1)
					ps = append(ps[:k:k], append([]string{""}, ps[k:]...)...)
				}
				qs := strings.Join(ps, "&")
				c.Distinct(qs)
				c.Sample("%s", q(qs))
				if d := diffTexts(want, parse(c, qs), "$"); d != "" {
					c.Fail("%s is parsed wrong: %s", q(qs), d)
				}
			}},
			{Name: "deep", N: counts(200, 3000), Run: func(c *Ctx, i int) {
				// containers nested in each other, long texts, many members
				r := c.R
				v := vStr(r.str(sAny))
				for v.S == "" {
					v = vStr(r.str(sAny))
				}
				switch i % 4 {
				case 0, 1:
					for k := r.N(pick(r, []int{12, 60, 300})); k >= 0; k-- {
						if r.P(1, 2) {
							v = vArr(v)
							if r.P(1, 3) {
								v.A = append(v.A, vStr("second"))
							}
							if v.A[0].K == KStr && len(v.A) > 1 {
								v.A = v.A[:1]
							}
						} else {
							v = &V{K: KDict, M: map[string]*V{pick(r, []string{"a", "key", "z9", "x-1"}): v}}
							if r.P(1, 3) {
								v.M["side"] = vStr("text")
							}
						}
					}
				case 2:
					n := pick(r, []int{300, 5000, 40000})
					v = vStr(strings.Repeat(pick(r, []string{"x", "é", " ", "&=", "%", "ab+"}), n/2) + pick(r, letters))
				default:
					n := pick(r, []int{40, 300, 3000, 12000})
					v = vDict()
					for k := 0; k < n; k++ {
						v.M[pick(r, []string{"k", "name"})+strconv.Itoa(k)] = vStr("v" + strconv.Itoa(k))
					}
				}
				want := &V{K: KDict, M: map[string]*V{"top": v, "z": vStr("1")}}
				note(c, want)
				qs := build(want).QueryString()
				c.Distinct(qs)
				c.Ev("deep", 1)
				for _, s := range []string{qs, strings.Join(shuffled(r, strings.Split(qs, "&")), "&")} {
					if d := diffTexts(want, parse(c, s), "$"); d != "" {
						c.Fail("nested parameters are parsed wrong: %s, from %s", clip(d, 500), q(s))
					}
				}
			}},
			{Name: "long", N: counts(60, 600), Run: func(c *Ctx, i int) {
				// lists of containers of every length, in shuffled order
				r := c.R
				n := i
				if i > 40 {
					n = r.N(400)
				}
				if i > 40 && i%4 == 0 {
					n = pick(r, []int{998, 999, 1000, 1001, 1100 + r.N(900), 2000 + r.N(8000), 9999 + r.N(1200)})
					if i == 44 {
						n = 33000
					}
				}
				list := vArr()
				for k := 0; k <= n; k++ {
					switch r.N(3) {
					case 0:
						list.A = append(list.A, vArr(vStr(strconv.Itoa(k)), vStr(r.str(sAny))))
					case 1:
						list.A = append(list.A, &V{K: KDict, M: map[string]*V{"k": vStr(strconv.Itoa(k)), "l": vArr(vStr("x"), vStr("y"))}})
					default:
						list.A = append(list.A, vStr(strconv.Itoa(k)))
					}
				}
				want := &V{K: KDict, M: map[string]*V{"list": list, "z": vStr("1"), "in": {K: KDict, M: map[string]*V{"l": list}}}}
				note(c, want)
				qs := build(want).QueryString()
				c.Distinct(qs)
				for _, s := range []string{qs, strings.Join(shuffled(r, strings.Split(qs, "&")), "&")} {
					if d := diffTexts(want, parse(c, s), "$"); d != "" {
						c.Fail("a list of %d elements is parsed wrong: %s, from %s", n+1, d, q(s))
					}
				}
			}},
		},
	})
}
