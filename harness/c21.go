package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	J "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

// C21: lenient conversions yield the value that was meant

func init() {
	register(&Prop{
		ID:   "C21",
		Rule: "scalar documents of every kind unmarshalled into Go scalars of every other kind, plain and named, directly, in fields under their own, Go and snake-case names, through pointers, in lists, arrays and map values, from documents, parsed text and query strings, the targets filled before; every result compared with a conversion table; distinct (target type, document) pairs count",
		Assume: []string{
			"values lie in the range of the target; strings are either unmistakable numbers (a sign, digits, groups of three, a decimal part, an exponent) or unmistakable junk; a text with decimals or exponent is converted to float targets only; words for booleans are true/yes/on/1 and false/no/off/0, other texts have no word among their letters once blanks around them are cut",
		},
		W: []Workload{
			{Name: "single", N: counts(400000, 6000000), Run: c21Single},
			{Name: "fields", N: counts(60000, 900000), Run: c21Fields},
		},
		MinEv: map[string]int64{"converted": 300000, "grouped_numbers": 5000, "junk_reported": 10000, "beyond_reported": 1000, "other_names": 15000, "lone_string_lists": 5000, "document_texts": 5000, "empty_strings": 5000, "nulls": 5000, "from_query": 5000, "other_texts": 3000, "documents_converted": 8000},
	})
}

type conv struct {
	label string
	t     *T
	d     *V
	set   func(v reflect.Value) // what the target becomes
	err   bool                  // an error, the target stays
	check func(v reflect.Value) string
}

var boolWords = map[string]bool{"true": true, "yes": true, "on": true, "1": true, "false": false, "no": false, "off": false, "0": false}

func (r *Rand) anyCase(s string) string {
	b := []byte(s)
	switch r.N(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	case 2:
		for i := range b {
			if r.P(1, 2) {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
	}
	return string(b)
}

// beyond makes the text of an integer beyond 64 bits
func (r *Rand) beyond(unsigned bool) string {
	if unsigned && r.P(1, 2) {
		return pick(r, []string{"-1", "-5", "-9223372036854775808", "18446744073709551616", "18446744073709551617", "18,446,744,073,709,551,616", "20000000000000000000"})
	}
	s := pick(r, []string{"-9223372036854775809", "-9,223,372,036,854,775,809", "18446744073709551616", "99999999999999999999", "99,999,999,999,999,999,999", "-18446744073709551615", "340282366920938463463374607431768211456", strings.Repeat("1", 25+r.N(100))})
	if !unsigned && r.P(1, 2) {
		s = pick(r, []string{"9223372036854775808", "9,223,372,036,854,775,808", "18446744073709551615"})
	}
	return s
}

// noWord makes a text that is no word for true or false, however one takes
// blanks around it
func (r *Rand) noWord() string {
	for {
		s := pick(r, junkTexts)
		switch r.N(3) {
		case 0:
			s = r.str(sAny)
		case 1:
			s = pick(r, []string{"", "none", "maybe", "2", "-1", "00", "01", "1.0", "0.0", "truee", "tru", "yess", "of", "offf", "onn", "11", "null", "undefined", "disabled", "no way", "yes no"})
		}
		switch strings.ToLower(strings.TrimSpace(s)) {
		case "true", "yes", "on", "ok", "1", "t", "y", "false", "no", "off", "0", "f", "n":
			continue
		}
		return s
	}
}

var junkTexts = []string{"word", "1x", "x1", "--1", "1 2", "１", "1,2,3x", "nil", "true", "null", "1-", "+-1", "1,,2", "1..2", ".", ",", "+", "-", "e5", "1e", "12abc", "é", "1\x00", "$5", "5%", "1e5e5", "1,234,", "0x10", "0b11", "0o17", "0X1F", "[1]", "{}", "'1'", "\"1\"", "1.2.3.x"}

// group inserts a separator between groups of three digits
func group(digits, sep string) string {
	var parts []string
	for len(digits) > 3 {
		parts = append([]string{digits[len(digits)-3:]}, parts...)
		digits = digits[:len(digits)-3]
	}
	return strings.Join(append([]string{digits}, parts...), sep)
}

// intText spells an integer
func (r *Rand) intText(n int64) (string, bool) {
	s := strconv.FormatInt(n, 10)
	sign := ""
	if n < 0 {
		sign, s = "-", s[1:]
	} else if r.P(1, 10) {
		sign = "+"
	}
	return r.groupText(sign, s)
}

func (r *Rand) groupText(sign, s string) (string, bool) {
	switch r.N(4) {
	case 0:
		if len(s) > 3 {
			return sign + group(s, ","), true
		}
	case 1:
		if len(s) > 6 {
			return sign + group(s, "."), true
		}
	case 2:
		// numbers are decimal, however many zeros lead
		if r.P(1, 4) {
			s = strings.Repeat("0", 1+r.N(4)) + s
		}
	}
	return sign + s, false
}

// floatText spells a float, whose value it returns
func (r *Rand) decText() (string, float64, bool) {
	n := r.int64v()
	if r.P(1, 2) {
		n = int64(r.N(100000000)) - 50000000
	}
	s := strconv.FormatInt(n, 10)
	sign := ""
	if n < 0 {
		sign, s = "-", s[1:]
	}
	dec := strconv.Itoa(r.N(1000000))
	plain := sign + s + "." + dec
	f, _ := strconv.ParseFloat(plain, 64)
	switch r.N(5) {
	case 0:
		if len(s) > 3 {
			return sign + group(s, ",") + "." + dec, f, true
		}
	case 1:
		if len(s) > 3 {
			return sign + group(s, ".") + "," + dec, f, true
		}
	case 2:
		if len(s) <= 3 && len(dec) != 3 {
			return sign + s + "," + dec, f, true
		}
	case 3:
		f = r.float()
		return strconv.FormatFloat(f, pick(r, []byte{'e', 'g', 'f', 'E'}), -1, 64), f, false
	}
	return plain, f, false
}

func inRange(t reflect.Type, n int64) bool {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return n >= 0 && !v.OverflowUint(uint64(n))
	}
	return !v.OverflowInt(n)
}

func setNum(v reflect.Value, n int64) {
	if v.CanInt() {
		v.SetInt(n)
	} else {
		v.SetUint(uint64(n))
	}
}

func (r *Rand) smallInt(t reflect.Type) int64 {
	for {
		n := r.int64v()
		if r.P(1, 3) {
			n = int64(r.N(300)) - 100
		}
		if inRange(t, n) {
			return n
		}
		if n < 0 && n != math.MinInt64 && inRange(t, -n) {
			return -n
		}
		n = n & 0x7f
		if inRange(t, n) {
			return n
		}
	}
}

// conv makes a conversion to a scalar type
func (r *Rand) conv() *conv {
	c := &conv{}
	switch r.N(14) {
	case 0:
		c.t = triType
	case 1:
		c.t = pick(r, append(append([]*T{}, docVals...), docPtrs...))
	case 2:
		c.t = anyType
	case 3:
		c.t = sliceOf(pick(r, leaves))
	case 4, 5:
		c.t = &T{K: tStr, RT: pick(r, []reflect.Type{rt[string](), rt[NStr]()})}
	default:
		c.t = pick(r, leaves)
	}
	t := c.t
	same := func(v reflect.Value) {}
	_ = same
	src := r.N(7)
	if src == 6 {
		// null
		c.label, c.d = "nulls", vNull()
		c.set = func(v reflect.Value) { v.Set(reflect.Zero(v.Type())) }
		if t.K == tAny {
			c.set = func(v reflect.Value) { v.Set(reflect.Zero(v.Type())) }
		}
		return c
	}
	setV := func(x interface{}) {
		c.set = func(v reflect.Value) { v.Set(reflect.ValueOf(x).Convert(v.Type())) }
	}
	c.label = "converted"
	switch t.K {
	case tInt, tUint:
		switch src {
		case 0, 1:
			if t.RT.Bits() == 64 && t.K == tUint && r.P(1, 3) {
				// above the range of signed numbers
				n := r.Uint64() | 1<<63
				s, g := r.groupText("", strconv.FormatUint(n, 10))
				c.d = vStr(s)
				if g {
					c.label = "grouped_numbers"
				}
				c.set = func(v reflect.Value) { v.SetUint(n) }
				break
			}
			n := r.smallInt(t.RT)
			s, g := r.intText(n)
			c.d = vStr(s)
			if g {
				c.label = "grouped_numbers"
			}
			if t.K == tUint && strings.HasPrefix(s, "+") {
				c.d.S = s[1:]
			}
			c.set = func(v reflect.Value) { setNum(v, n) }
		case 2:
			c.d, c.err, c.label = vStr(pick(r, junkTexts)), true, "junk_reported"
			if r.P(1, 4) {
				c.d, c.label = vStr(r.beyond(t.K == tUint)), "beyond_reported"
			}
		case 3:
			b := r.P(1, 2)
			c.d = vBool(b)
			c.set = func(v reflect.Value) {
				if b {
					setNum(v, 1)
				} else {
					setNum(v, 0)
				}
			}
		case 4:
			if t.RT.Bits() == 64 && t.K == tUint && r.P(1, 3) {
				// above the range of signed numbers: doubles are whole there
				n := (r.Uint64() | 1<<63) &^ 0x7ff
				c.label = "large_floats"
				c.d = vFloat(float64(n))
				c.set = func(v reflect.Value) { v.SetUint(n) }
				break
			}
			n := r.smallInt(t.RT)
			if n > 1<<52 || n < -1<<52 {
				n >>= 12
			}
			f := float64(n)
			if r.P(2, 3) {
				frac := pick(r, []float64{0.25, 0.5, 0.75, 0.125, 0.9375})
				if f < 0 {
					frac = -frac
				}
				if math.Trunc(f+frac) == f {
					f += frac
				}
			}
			c.d = vFloat(f)
			c.set = func(v reflect.Value) { setNum(v, n) }
		default:
			if r.P(1, 2) {
				c.label, c.d = "empty_strings", vStr("")
				c.set = func(v reflect.Value) {}
			} else {
				n := r.smallInt(t.RT)
				c.d = vInt(n)
				c.set = func(v reflect.Value) { setNum(v, n) }
			}
		}
	case tF32, tF64:
		switch src {
		case 0, 1:
			s, f, g := r.decText()
			if r.P(1, 4) {
				n := r.int64v()
				s, g = r.intText(n)
				f = float64(n)
			}
			if t.K == tF32 && math.Abs(f) > math.MaxFloat32 {
				s, f, g = "1.5", 1.5, false
			}
			if g {
				c.label = "grouped_numbers"
			}
			c.d = vStr(s)
			c.set = func(v reflect.Value) { v.SetFloat(f) }
		case 2:
			c.d, c.err, c.label = vStr(pick(r, junkTexts)), true, "junk_reported"
			if r.P(1, 8) {
				c.d, c.label = vStr(pick(r, []string{"1e999", "-1e999", "1.5e400", strings.Repeat("9", 400), "-" + strings.Repeat("1234", 200) + ".5"})), "beyond_reported"
			}
		case 3:
			b := r.P(1, 2)
			c.d = vBool(b)
			c.set = func(v reflect.Value) {
				v.SetFloat(0)
				if b {
					v.SetFloat(1)
				}
			}
		case 4:
			if r.P(1, 2) {
				c.label, c.d = "empty_strings", vStr("")
				c.set = func(v reflect.Value) {}
				break
			}
			f := r.float()
			if t.K == tF32 {
				f = float64(r.float32v())
			}
			c.d = vFloat(f)
			c.set = func(v reflect.Value) { v.SetFloat(f) }
		default:
			n := r.int64v()
			c.d = vInt(n)
			c.set = func(v reflect.Value) { v.SetFloat(float64(n)) }
		}
	case tBool, tTri:
		val := false
		if src <= 1 && r.P(1, 3) {
			// no word for either
			c.label = "other_texts"
			c.d = vStr(r.noWord())
			if t.K == tTri {
				setV(tristate.None)
			} else {
				setV(false)
			}
			break
		}
		switch src {
		case 0, 1:
			w := pick(r, sortedKeys(boolWords))
			val = boolWords[w]
			c.d = vStr(r.anyCase(w))
		case 2:
			n := pick(r, []int64{0, 1, 2, -1, 256, 1 << 32, math.MinInt64, r.int64v()})
			val = n != 0
			c.d = vInt(n)
		case 3:
			f := pick(r, []float64{0, 0.5, -0.25, 1, 1e-300, 2.5, math.SmallestNonzeroFloat64, r.float()})
			val = f != 0
			c.d = vFloat(f)
		default:
			val = r.P(1, 2)
			c.d = vBool(val)
		}
		if t.K == tTri {
			setV(tristate.NewFromBool(val))
		} else {
			setV(val)
		}
	case tStr:
		switch src {
		case 0:
			n := r.int64v()
			c.d = vInt(n)
			setV(strconv.FormatInt(n, 10))
		case 1:
			f := r.float()
			bits := 64
			c.d = vFloat(f)
			if r.P(1, 4) {
				f = float64(r.float32v())
				bits = 32
				c.d = &V{K: KFloat, F: f, F32: true}
			}
			c.check = func(v reflect.Value) string {
				got, err := strconv.ParseFloat(v.String(), bits)
				if err != nil || got != f {
					return fmt.Sprintf("a spelling of %v expected, got %q", f, v.String())
				}
				return ""
			}
		case 2:
			b := r.P(1, 2)
			c.d = vBool(b)
			setV(strconv.FormatBool(b))
		case 3, 4:
			g := genOpt{str: sAny, maxSize: 8, depth: 2}
			bg := 8
			d := r.tree(&g, 2, &bg, true)
			for d.K != KArr && d.K != KDict {
				d = r.tree(&g, 2, &bg, true)
				bg = 8
			}
			c.label, c.d = "document_texts", d
			c.check = func(v reflect.Value) string {
				// judged by parsing: the printing itself is C04's and C05's
				o, err := J.ParseString(v.String())
				if err != nil {
					return fmt.Sprintf("%q is not the text of the document: %v", v.String(), err)
				}
				return diff(d, observe(o), numeric)
			}
		default:
			s := r.str(sAny)
			c.d = vStr(s)
			setV(s)
		}
	case tAny:
		c.d = pick(r, []*V{vInt(r.int64v()), vFloat(r.float()), vBool(r.P(1, 2)), vStr(r.str(sAny))})
		x := c.d.plain()
		c.set = func(v reflect.Value) { v.Set(reflect.ValueOf(x)) }
	case tSlice:
		c.label = "lone_string_lists"
		// one string for a list
		e := t.Elem
		var x string
		var fill func(v reflect.Value)
		switch e.K {
		case tStr:
			x = r.str(sAny)
			fill = func(v reflect.Value) { v.SetString(x) }
		case tInt, tUint:
			n := r.smallInt(e.RT)
			x = strconv.FormatInt(n, 10)
			fill = func(v reflect.Value) { setNum(v, n) }
		case tF32, tF64:
			n := int64(r.N(1000))
			x = strconv.FormatFloat(float64(n)+0.5, 'f', -1, 64)
			fill = func(v reflect.Value) { v.SetFloat(float64(n) + 0.5) }
		default:
			w := pick(r, sortedKeys(boolWords))
			x = r.anyCase(w)
			fill = func(v reflect.Value) { v.SetBool(boolWords[w]) }
		}
		c.d = vStr(x)
		c.set = func(v reflect.Value) {
			v.Set(reflect.MakeSlice(v.Type(), 1, 1))
			fill(v.Index(0))
		}
	case tDocVal, tDocPtr:
		ptr := t.K == tDocPtr
		put := func(d *V) {
			c.set = func(v reflect.Value) {
				o := reflect.ValueOf(build(d))
				if !ptr {
					o = o.Elem()
				}
				v.Set(o)
			}
		}
		spelled := func(f float64) {
			c.d = vFloat(f)
			c.check = func(v reflect.Value) string {
				if !ptr {
					v = v.Addr()
				}
				s, _ := v.Interface().(*J.JSONString).GetString()
				if got, err := strconv.ParseFloat(s, 64); err != nil || got != f {
					return fmt.Sprintf("a spelling of %v expected, got %q", f, s)
				}
				return ""
			}
		}
		n := r.int64v()
		b := r.P(1, 2)
		switch t.Doc {
		case KStr:
			switch r.N(4) {
			case 0:
				c.d = vInt(n)
				put(vStr(strconv.FormatInt(n, 10)))
			case 1:
				c.d = vBool(b)
				put(vStr(strconv.FormatBool(b)))
			case 2:
				c.d = vStr(r.str(sAny))
				put(c.d)
			default:
				spelled(r.float())
			}
		case KInt:
			if r.P(1, 3) {
				c.d = vInt(n)
				put(c.d)
				break
			}
			f := float64(n>>12) + pick(r, []float64{0, 0.5, 0.25})
			c.d = vFloat(f)
			put(vInt(int64(f)))
		case KFloat:
			if r.P(1, 3) {
				c.d = vFloat(r.float())
				put(c.d)
				break
			}
			c.d = vInt(n)
			put(vFloat(float64(n)))
		case KBool:
			switch r.N(4) {
			case 0:
				w := pick(r, sortedKeys(boolWords))
				c.d = vStr(r.anyCase(w))
				put(vBool(boolWords[w]))
			case 1:
				c.label = "other_texts"
				c.d = vStr(r.noWord())
				put(vBool(false))
			case 2:
				if !ptr {
					f := pick(r, []float64{0, 0.5, -0.25, 3})
					c.d = vFloat(f)
					put(vBool(f != 0))
					break
				}
				fallthrough
			default:
				c.d = vBool(b)
				put(c.d)
			}
		default:
			c.d = vNull()
			c.label = "nulls"
			c.set = func(v reflect.Value) { v.Set(reflect.Zero(v.Type())) }
		}
		if c.label == "converted" {
			c.label = "documents_converted"
		}
	}
	return c
}

// judge compares a target with what the conversion makes of its former value
func (cv *conv) judge(before, got reflect.Value) string {
	if cv.check != nil {
		return cv.check(got)
	}
	if !cv.err {
		cv.set(before)
	}
	if a, b := show(before), show(got); a != b {
		return fmt.Sprintf("%s expected, got %s", a, b)
	}
	return ""
}

func c21Single(c *Ctx, i int) {
	r := c.R
	cv := r.conv()
	s1, s2 := r.Uint64(), r.Uint64()
	filled := r.P(2, 3)
	fresh := func(t *T) reflect.Value {
		v := reflect.New(t.RT)
		if filled {
			seeded(s1, s2).val(t, &vOpt{str: sAny, fill: 9}, v.Elem(), true)
		}
		return v
	}
	before, got := fresh(cv.t).Elem(), fresh(cv.t)
	o := buildVia(r, cv.d)
	if !hasNaN(cv.d) && cv.d.K != KFloat && r.P(1, 4) {
		// as read from a text
		p, err := J.ParseString(o.String())
		c.Check(err == nil, "%v", err)
		o = p
	}
	route := r.N(9)
	if (cv.t.K == tAny || cv.t.K == tDocVal || cv.t.K == tDocPtr) && route >= 2 && route != 5 {
		route = 0
	}
	var err error
	var pan interface{}
	run := func(o J.JSONObject, target interface{}, keys ...string) {
		pan = try(func() { err = o.Unmarshal(target, keys...) })
	}
	out := got.Elem()
	place := "directly"
	switch route {
	case 0, 1:
		run(o, got.Interface())
	case 2:
		place = "behind pointers"
		p := reflect.New(got.Type())
		p.Elem().Set(got)
		run(o, p.Interface())
		if cv.d.K == KNull {
			// null empties the pointer itself
			c.Check(p.Elem().IsNil() && pan == nil && err == nil, "null into a pointer: %s", show(p))
			c.Ev("nulls", 1)
			return
		}
	case 3:
		place = "as an element"
		st := reflect.SliceOf(cv.t.RT)
		l := reflect.New(st)
		run(J.NewArray(o), l.Interface())
		if !cv.err && pan == nil && err == nil {
			c.Check(l.Elem().Len() == 1, "list of length %d", l.Elem().Len())
			out = l.Elem().Index(0)
			before = reflect.New(cv.t.RT).Elem()
		} else {
			out = before
		}
	case 4:
		place = "as an entry"
		m := reflect.New(reflect.MapOf(rt[string](), cv.t.RT))
		d := J.NewDict()
		d.Set("k", o)
		run(d, m.Interface())
		if !cv.err && pan == nil && err == nil {
			e := reflect.New(cv.t.RT).Elem()
			e.Set(m.Elem().MapIndex(reflect.ValueOf("k")))
			out = e
			before = reflect.New(cv.t.RT).Elem()
		} else {
			out = before
		}
	case 5:
		place = "by a path"
		d := J.NewDict()
		d.Set("k", o)
		e := J.NewDict()
		e.Set("d", d)
		run(e, got.Interface(), "d", "k")
	case 6:
		place = "in an array"
		a := reflect.New(reflect.ArrayOf(1, cv.t.RT))
		a.Elem().Index(0).Set(got.Elem())
		run(J.NewArray(o), a.Interface())
		out = a.Elem().Index(0)
	case 7:
		if cv.d.K == KStr && cv.t.K != tDocVal && cv.t.K != tDocPtr && cv.d.S != "" {
			place = "from a query string"
			d := J.NewDict()
			d.Set("k", o)
			x, e := J.ParseQueryString(d.QueryString())
			c.Check(e == nil, "%v", e)
			run(x, got.Interface(), "k")
			c.Ev("from_query", 1)
			break
		}
		run(o, got.Interface())
	default:
		place = "in a field"
		st := reflect.StructOf([]reflect.StructField{{Name: "Other", Type: rt[string]()}, {Name: "K", Type: cv.t.RT}})
		s := reflect.New(st)
		s.Elem().Field(0).SetString("stays")
		s.Elem().Field(1).Set(got.Elem())
		d := J.NewDict()
		d.Set("k", o)
		run(d, s.Interface())
		out = s.Elem().Field(1)
		c.Check(s.Elem().Field(0).String() == "stays", "another field became %q", s.Elem().Field(0).String())
	}
	what := func() string {
		return fmt.Sprintf("%s into %s %s (filled: %v)", cv.d.text(), cv.t.RT, place, filled)
	}
	if pan != nil {
		c.Fail("%s panics: %v", what(), pan)
	}
	if cv.err != (err != nil) {
		c.Fail("%s: error %v", what(), err)
	}
	if d := cv.judge(before, out); d != "" {
		c.Fail("%s: %s", what(), d)
	}
	c.Ev("converted", 1)
	if cv.label != "converted" {
		c.Ev(cv.label, 1)
	}
	c.Distinct(cv.t.RT.String(), cv.d.text(), place)
	c.Sample("%s: %s", what(), show(out))
}

// several conversions into the fields of one struct, found under any of their
// names
func c21Fields(c *Ctx, i int) {
	r := c.R
	n := 1 + r.N(6)
	var sf []reflect.StructField
	var cvs []*conv
	t := &T{K: tStruct}
	used := map[string]bool{}
	for k := 0; k < n; k++ {
		w1, w2 := pick(r, words1), pick(r, words2)
		snake := w1
		if w2 != "" {
			snake += "_" + strings.ToLower(w2)
		}
		if used[snake] {
			continue
		}
		used[snake] = true
		cv := r.conv()
		f := &Fld{Go: strings.ToUpper(w1[:1]) + w1[1:] + w2, Snake: snake, Name: snake, T: cv.t}
		switch r.N(3) {
		case 0:
			f.Name = fmt.Sprintf("m%d", k)
			f.Tag = fmt.Sprintf(`json:"m%d"`, k)
		case 1:
			f.Name = fmt.Sprintf("other-%d", k)
			f.Tag = fmt.Sprintf(`name:"other-%d" json:",omitempty"`, k)
		}
		t.F = append(t.F, f)
		cvs = append(cvs, cv)
		sf = append(sf, reflect.StructField{Name: f.Go, Type: cv.t.RT, Tag: reflect.StructTag(f.Tag)})
	}
	t.RT = reflect.StructOf(sf)
	s1, s2 := r.Uint64(), r.Uint64()
	filled := r.P(2, 3)
	mk := func() reflect.Value {
		v := reflect.New(t.RT)
		if filled {
			seeded(s1, s2).val(t, &vOpt{str: sAny, fill: 9}, v.Elem(), true)
		}
		return v
	}
	before, got := mk(), mk()
	d := vDict()
	given := make([]bool, len(cvs))
	fails := false
	for k, f := range t.F {
		if r.P(1, 4) {
			continue
		}
		given[k] = true
		name := f.Name
		if al := t.aliases(f); len(al) > 0 && r.P(1, 2) {
			name = pick(r, al)
			c.Ev("other_names", 1)
		}
		d.M[name] = cvs[k].d
		fails = fails || cvs[k].err
	}
	o := buildVia(r, d)
	var err error
	if p := try(func() { err = o.Unmarshal(got.Interface()) }); p != nil {
		c.Fail("%s into %s panics: %v", d.text(), t, p)
	}
	if fails != (err != nil) {
		c.Fail("%s into %s: error %v", d.text(), t, err)
	}
	for k, f := range t.F {
		a, b := before.Elem().Field(k), got.Elem().Field(k)
		if !given[k] {
			if x, y := show(a), show(b); x != y {
				c.Fail("%s into %s: field %s is not named but became %s, was %s", d.text(), t, f.Go, y, x)
			}
			continue
		}
		if m := cvs[k].judge(a, b); m != "" {
			c.Fail("%s into %s: field %s: %s", d.text(), t, f.Go, m)
		}
		c.Ev("converted", 1)
		if cvs[k].label != "converted" {
			c.Ev(cvs[k].label, 1)
		}
	}
	c.Distinct(t.RT.String(), d.text())
	c.Sample("%s into %s", d.text(), t)
}
