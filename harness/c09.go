package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"

	"yunion.io/x/pkg/errors"

	J "yunion.io/x/jsonutils"
)

var (
	reDecInt   = regexp.MustCompile(`^[+-]?[0-9]+$`)
	reDecFloat = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
	// spellings of numbers that one may or may not accept
	reOddNum = regexp.MustCompile(`(?i)^[+-]?(inf|infinity|nan|0[xbo].*|.*_.*)$`)
)

// verdict of a reading: a value, an error, or not judged
type verdict int

const (
	vdValue verdict = iota
	vdError
	vdSkip
)

func wantInt(v *V) (int64, verdict) {
	switch v.K {
	case KInt:
		return v.I, vdValue
	case KStr:
		if reDecInt.MatchString(v.S) {
			if n, err := strconv.ParseInt(v.S, 10, 64); err == nil {
				return n, vdValue
			}
		}
	}
	return 0, vdError
}

func wantFloat(v *V) (float64, verdict) {
	switch v.K {
	case KInt:
		return float64(v.I), vdValue
	case KFloat:
		return v.F, vdValue
	case KStr:
		if reDecFloat.MatchString(v.S) {
			if f, err := strconv.ParseFloat(v.S, 64); err == nil {
				return f, vdValue
			}
			return 0, vdError
		}
		if reOddNum.MatchString(v.S) {
			return 0, vdSkip
		}
	}
	return 0, vdError
}

func wantBool(v *V) (bool, verdict) {
	switch v.K {
	case KBool:
		return v.B, vdValue
	case KStr:
		switch strings.ToLower(v.S) {
		case "true", "on", "yes", "1":
			return true, vdValue
		case "false", "off", "no", "0":
			return false, vdValue
		}
		for _, w := range []string{"true", "on", "yes", "false", "off", "no"} {
			if strings.EqualFold(v.S, w) {
				return false, vdSkip
			}
		}
	}
	return false, vdError
}

// access checks all typed readings of the member at a path
func access(c *Ctx, doc J.JSONObject, path []string, o J.JSONObject, v *V) {
	where := fmt.Sprintf("of %s at %q", v.brief(), path)
	c.Check(o.IsZero() == isZeroDoc(v), "IsZero %s is %v", where, o.IsZero())
	switch x := o.(type) {
	case *J.JSONString:
		c.Check(x.Value() == v.S && x.Length() == len(v.S), "Value and Length %s are %s and %d", where, q(x.Value()), x.Length())
	case *J.JSONInt:
		c.Check(x.Value() == v.I, "Value %s is %d", where, x.Value())
	case *J.JSONFloat:
		c.Check(x.Value() == v.F || math.IsNaN(v.F) && math.IsNaN(x.Value()), "Value %s is %v", where, x.Value())
	case *J.JSONBool:
		c.Check(x.Value() == v.B, "Value %s is %v", where, x.Value())
	case *J.JSONDict:
		c.Check(x.Length() == len(v.M) && x.Size() == len(v.M) && len(x.Value()) == len(v.M), "Length, Size and Value %s are %d, %d and %d members", where, x.Length(), x.Size(), len(x.Value()))
	case *J.JSONArray:
		c.Check(x.Length() == len(v.A) && x.Size() == len(v.A) && len(x.Value()) == len(v.A), "Length, Size and Value %s are %d, %d and %d elements", where, x.Length(), x.Size(), len(x.Value()))
	}
	// a number out of range comes with the nearest one
	spelled := v.K == KStr && (reDecFloat.MatchString(v.S) || reOddNum.MatchString(v.S))
	judge := func(what string, vd verdict, err error) bool {
		switch vd {
		case vdValue:
			c.Check(err == nil, "%s %s fails: %v", what, where, shortErr(err))
			c.Ev("value_"+what, 1)
			return true
		case vdError:
			c.Check(err != nil, "%s %s succeeds", what, where)
			c.Ev("error_"+what, 1)
		}
		return false
	}
	wi, vi := wantInt(v)
	wf, vf := wantFloat(v)
	wb, vb := wantBool(v)
	for _, x := range []struct {
		o    J.JSONObject
		path []string
	}{{doc, path}, {o, nil}} {
		if gi, err := x.o.Int(x.path...); judge("Int", vi, err) {
			c.Check(gi == wi, "Int %s is %d instead of %d", where, gi, wi)
		} else if err != nil && !spelled {
			c.Check(gi == 0, "Int %s fails with the value %v", where, gi)
		}
		if gf, err := x.o.Float(x.path...); judge("Float", vf, err) {
			c.Check(gf == wf || math.IsNaN(gf) && math.IsNaN(wf), "Float %s is %v instead of %v", where, gf, wf)
		} else if err != nil && !spelled {
			c.Check(gf == 0, "Float %s fails with the value %v", where, gf)
		}
		if gb, err := x.o.Bool(x.path...); judge("Bool", vb, err) {
			c.Check(gb == wb, "Bool %s is %v instead of %v", where, gb, wb)
		} else if err != nil && !spelled {
			c.Check(!gb, "Bool %s fails with the value %v", where, gb)
		}
		gs, err := x.o.GetString(x.path...)
		judge("GetString", vdValue, err)
		if v.K == KStr {
			c.Check(gs == v.S, "GetString %s is %s", where, q(gs))
		} else {
			c.Check(gs == o.String(), "GetString %s is %s instead of the printed text %s", where, q(gs), q(o.String()))
			if v.any(func(x *V) bool { return x.K == KFloat && (math.IsNaN(x.F) || math.IsInf(x.F, 0)) }) == false {
				p, _, perr := decodeStrict(gs, true)
				c.Check(perr == nil && diff(v, p, numeric) == "", "GetString %s is %s, which reads as something else", where, q(gs))
			}
		}
		gl, err := x.o.GetArray(x.path...)
		switch v.K {
		case KArr:
			judge("GetArray", vdValue, err)
			got := &V{K: KArr}
			for _, e := range gl {
				got.A = append(got.A, observe(e))
			}
			if d := diff(v, got, exact); d != "" {
				c.Fail("GetArray %s: %s", where, d)
			}
		case KDict, KNull:
			judge("GetArray", vdError, err)
		default:
			judge("GetArray", vdValue, err)
			c.Check(len(gl) == 1 && diff(v, observe(gl[0]), exact) == "", "GetArray %s is no list of the scalar: %v", where, gl)
		}
		gm, err := x.o.GetMap(x.path...)
		if v.K == KDict {
			judge("GetMap", vdValue, err)
			got := vDict()
			for k, e := range gm {
				got.M[k] = observe(e)
			}
			if d := diff(v, got, exact); d != "" {
				c.Fail("GetMap %s: %s", where, d)
			}
		} else {
			judge("GetMap", vdError, err)
			c.Check(len(gm) == 0, "GetMap %s gives members along with an error", where)
		}
		if v.K != KStr {
			_, err = x.o.GetTime(x.path...)
			judge("GetTime", vdError, err)
		} else if digits(v.S) < 4 {
			_, err = x.o.GetTime(x.path...)
			judge("GetTime", vdError, err)
		}
	}
}

// isZeroDoc: null, false, 0 and all that is empty
func isZeroDoc(v *V) bool {
	switch v.K {
	case KBool:
		return !v.B
	case KInt:
		return v.I == 0
	case KFloat:
		return v.F == 0
	}
	return len(v.S)+len(v.A)+len(v.M) == 0
}

func digits(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' {
			n++
		}
	}
	return n
}

func randTime(r *Rand) time.Time {
	y := 1 + r.N(9999)
	switch r.N(4) {
	case 0:
		y = 1970 + r.N(70)
	case 1:
		y = pick(r, []int{1, 2, 100, 1582, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2038, 2100, 9999})
	}
	us := 0
	switch r.N(4) {
	case 0:
	case 1:
		us = r.N(1000) * 1000
	case 2:
		us = pick(r, []int{1, 10, 100, 1000, 10000, 100000, 999999, 999990, 120000, 500000})
	default:
		us = r.N(1000000)
	}
	mo, d, h, m, s := 1+r.N(12), 1+r.N(28), r.N(24), r.N(60), r.N(60)
	if r.P(1, 4) {
		h, m, s = 0, 0, 0
	}
	if r.P(1, 4) {
		mo, d = pick(r, [][2]int{{1, 1}, {12, 31}, {2, 28}, {6, 30}})[0], 1
	}
	t := time.Date(y, time.Month(mo), d, h, m, s, us*1000, time.UTC)
	return t
}

func failsAll(c *Ctx, doc J.JSONObject, path []string, cause error) {
	gi, _ := doc.Int(path...)
	gf, _ := doc.Float(path...)
	gb, _ := doc.Bool(path...)
	gs, _ := doc.GetString(path...)
	gt, _ := doc.GetTime(path...)
	gl, _ := doc.GetArray(path...)
	gm, _ := doc.GetMap(path...)
	c.Check(gi == 0 && gf == 0 && !gb && gs == "" && gt.IsZero() && len(gl) == 0 && len(gm) == 0, "reading %q of %s, which does not exist, gives the values %v %v %v %q %v %v %v", path, describe(doc), gi, gf, gb, gs, gt, gl, gm)
	for what, err := range map[string]error{
		"Int":       second(doc.Int(path...)),
		"Float":     second(doc.Float(path...)),
		"Bool":      second(doc.Bool(path...)),
		"GetString": second(doc.GetString(path...)),
		"GetTime":   second(doc.GetTime(path...)),
		"GetArray":  second(doc.GetArray(path...)),
		"GetMap":    second(doc.GetMap(path...)),
	} {
		c.Check(err != nil, "%s(%q) of %s succeeds although there is no such path", what, path, describe(doc))
		if cause != nil && errors.Cause(err) != cause {
			c.Fail("%s(%q) of %s reports %v instead of %v", what, path, describe(doc), shortErr(err), cause)
		}
		c.Ev("missing_path", 1)
	}
}

func second[T any](_ T, err error) error { return err }

func init() {
	register(&Prop{
		ID:   "C09",
		Rule: "members of every kind and strings that spell numbers, booleans and times or nearly so, read with every accessor directly and through a path; distinct members count",
		Assume: []string{
			"strings that only some conventions read as a number (0x10, 1_000, inf, nan) are not judged",
			"a string with fewer than four digits spells no time; times are written in the layouts of the library and of RFC 3339, RFC 1123, RFC 822 and Unix date in UTC",
		},
		MinEv: map[string]int64{"value_Int": 20000, "error_Int": 20000, "value_Float": 20000, "error_Float": 20000, "value_Bool": 3000, "error_Bool": 20000, "value_GetArray": 20000, "value_GetMap": 5000, "missing_path": 20000, "times": 10000, "large_members": 200},
		W: []Workload{
			{Name: "members", N: counts(30000, 800000), Run: func(c *Ctx, i int) {
				r := c.R
				var v *V
				if r.P(1, 3) {
					v = r.doc(genOpt{maxSize: 15, depth: 3, nan: true})
				} else {
					v = r.scalar(&genOpt{nan: true})
				}
				o := build(v)
				doc := J.NewDict()
				doc.Set("other", J.NewInt(77))
				path := []string{r.key(sAny)}
				cur := doc
				for r.P(1, 3) {
					n := J.NewDict()
					cur.Set(path[len(path)-1], n)
					cur = n
					path = append(path, r.key(sAny))
				}
				cur.Set(path[len(path)-1], o)
				before := doc.String()
				access(c, doc, path, o, v)
				c.Distinct(v.text())
				if r.P(1, 4) {
					long := append(append([]string(nil), path...), "x", "y")
					if v.K == KDict {
						if _, ok := v.M["x"]; !ok {
							failsAll(c, doc, long, J.ErrJsonDictKeyNotFound)
							failsAll(c, o, []string{"x"}, J.ErrJsonDictKeyNotFound)
						}
					} else {
						failsAll(c, doc, long[:len(path)+1], J.ErrInvalidJsonDict)
						failsAll(c, doc, long, J.ErrInvalidJsonDict)
						failsAll(c, o, []string{"x"}, nil)
						failsAll(c, o, []string{""}, nil)
					}
					miss := append(append([]string(nil), path[:len(path)-1]...), path[len(path)-1]+"?")
					if miss[len(miss)-1] != "other" {
						failsAll(c, doc, miss, J.ErrJsonDictKeyNotFound)
					}
				}
				c.Check(doc.String() == before, "reading changed the document")
			}},
			{Name: "spellings", N: counts(30000, 800000), Run: func(c *Ctx, i int) {
				r := c.R
				var s string
				switch r.N(8) {
				case 0:
					s = strconv.FormatInt(r.int64v(), 10)
				case 1:
					s = strconv.FormatFloat(r.float(), "eEfgG"[r.N(5)], r.N(8)-1, 64)
				case 2:
					s = pick(r, []string{"true", "false", "on", "off", "yes", "no", "1", "0", "t", "f", "y", "n", "null", "none", "enable", ""})
					if r.P(1, 2) {
						b := []byte(s)
						for k := range b {
							if r.P(1, 2) {
								b[k] = strings.ToUpper(string(b[k]))[0]
							}
						}
						s = string(b)
					}
				case 3:
					s = pick(r, []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "1e308", "1e309", "-1e309", "00012", "+7", "--7", "1e", "e1", ".", "1.2.3", "0.1e1", "1 2", "１２", "1e-400", "4.9e-324", "1,000", "12abc", "0x10", "1_0", "Inf", "NaN"})
				case 4:
					n := 1 + r.N(25)
					for k := 0; k < n; k++ {
						s += string("0123456789"[r.N(10)])
					}
				case 5:
					s = pick(r, ambiguous)
				default:
					s = strconv.FormatInt(r.int64v(), 10)
					if r.P(1, 2) {
						s += "." + strconv.Itoa(r.N(1000))
					}
				}
				switch r.N(10) {
				case 0:
					s = " " + s
				case 1:
					s += pick(r, []string{" ", "\n", "\x00", "x", ".", "e", "0", "%"})
				case 2:
					if len(s) > 1 {
						k := r.N(len(s))
						s = s[:k] + s[k+1:]
					}
				}
				v := vStr(s)
				o := J.NewString(s)
				doc := J.NewDict()
				doc.Set("m", o)
				access(c, doc, []string{"m"}, o, v)
				c.Distinct(s)
				c.Sample("%q", s)
			}},
			{Name: "large", N: counts(300, 4000), Run: func(c *Ctx, i int) {
				// long lists, wide objects, long texts and long spellings of numbers
				r := c.R
				var v *V
				n := pick(r, []int{30, 310, 320, 1000, 3500, 30100})
				switch i % 6 {
				case 0, 1:
					v = bigCase(r, r.N(1000), genOpt{nan: true})
				case 2:
					// with zeros in front
					v = vStr(pick(r, []string{"", "-", "+"}) + strings.Repeat("0", n) + strconv.Itoa(r.N(100000)))
				case 3:
					v = vStr(strconv.Itoa(r.N(1000)) + "." + strings.Repeat(pick(r, []string{"0", "1", "9", "37"}), n))
				case 4:
					v = vStr(pick(r, []string{"", "1", "-9"}) + strings.Repeat(pick(r, []string{"9", "40", "1"}), r.N(320)) + pick(r, []string{"", ".0", ".5", "e-300", "e0", "e9"}))
				default:
					v = vStr(strings.Repeat("0", r.N(n)) + "." + strings.Repeat("0", r.N(n)) + "17" + pick(r, []string{"", "x", "e5", "e0000000001", "e-00000000000000000000000000000000000000000000000000003"}))
				}
				doc := J.NewDict()
				o := build(v)
				doc.Set("m", o)
				access(c, doc, []string{"m"}, o, v)
				c.Ev("large_members", 1)
				c.Sample("%s", clip(v.text(), 200))
				c.Distinct(v.text())
			}},
			{Name: "times", N: counts(20000, 400000), Run: func(c *Ctx, i int) {
				r := c.R
				t := randTime(r)
				off := time.FixedZone("", (r.N(27)-12)*3600+r.N(2)*1800)
				if r.P(1, 3) {
					off = time.Local
				}
				// the library's own ways of writing a time
				sec := t.Truncate(time.Second)
				texts := map[string]time.Time{}
				s, err := J.NewTimeString(t).GetString()
				c.Check(err == nil, "%v", err)
				texts[s] = sec
				s, err = J.NewTimeString(t.In(off)).GetString()
				c.Check(err == nil, "%v", err)
				texts[s] = sec
				if !t.IsZero() {
					s, err = J.Marshal(t).GetString()
					c.Check(err == nil, "%v", err)
					texts[s] = t
					s, err = J.Marshal(t.In(off)).GetString()
					c.Check(err == nil, "%v", err)
					texts[s] = t
					m, err := J.Marshal(struct{ T time.Time }{t}).GetTime("t")
					c.Check(err == nil && m.Equal(t), "the time %s is marshalled as %v (%v)", t, m, err)
				}
				// common layouts, whose meaning the standard library gives
				lay := pick(r, []string{time.RFC3339, "2006-01-02T15:04:05.000Z07:00", "2006-01-02T15:04:05.000000Z07:00", "2006-01-02 15:04:05", "2006-01-02", "20060102150405", "2006-01-02T15:04:05"})
				u := t
				if strings.Contains(lay, "Z07") && t.Year() > 1 && t.Year() < 9999 {
					u = t.In(off)
				}
				s = u.Format(lay)
				want, err := time.Parse(lay, s)
				c.Check(err == nil, "harness: %v", err)
				texts[s] = want
				lay = pick(r, []string{time.RFC1123, time.UnixDate, time.RFC822})
				s = t.Format(lay)
				want, err = time.Parse(lay, s)
				c.Check(err == nil, "harness: %v", err)
				texts[s] = want
				for _, s := range sortedKeys(texts) {
					want := texts[s]
					o := J.NewString(s)
					doc := J.NewDict()
					doc.Add(o, "a", "t")
					for k, f := range []func() (time.Time, error){
						func() (time.Time, error) { return o.GetTime() },
						func() (time.Time, error) { return doc.GetTime("a", "t") },
					} {
						got, err := f()
						c.Check(err == nil, "the time %q is not read (%d): %v", s, k, shortErr(err))
						c.Check(got.Equal(want), "the time %q is read as %s instead of %s", s, got, want)
						c.Ev("times", 1)
					}
					c.Distinct(s)
				}
			}},
		},
	})
}
