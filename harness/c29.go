package main

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	J "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/errors"
)

// C29: errors say where and what is wrong

var errAt = regexp.MustCompile(`^(?s)JSON error .* at (\d+): `)

// errPos reads the position from a parse error and checks its excerpt
func errPos(c *Ctx, text string, err error) int {
	e, ok := errors.Cause(err).(*J.JSONError)
	c.Check(ok, "the error of parsing %s has the cause %T: %s", q(text), errors.Cause(err), shortErr(err))
	s := e.Error()
	// the excerpt may hold anything, so try all positions written in the error
	for _, m := range regexp.MustCompile(` at (\d+): `).FindAllStringSubmatchIndex(s, -1) {
		n, err := strconv.Atoi(s[m[2]:m[3]])
		if err != nil || n < 0 || n >= len(text) && n > 0 {
			continue
		}
		a, b := max(0, n-10), min(len(text), n+10)
		if len(text) == 0 {
			if s[m[1]:] == "..." {
				return n
			}
			continue
		}
		if s[m[1]:] == text[a:n]+"^"+text[n:b]+"..." {
			return n
		}
	}
	c.Fail("the error of parsing %s does not show the text at its position: %s", q(text), q(s))
	return 0
}

func nextNonBlank(s string, i int) int {
	for i < len(s) && strings.IndexByte(" \t\r\n", s[i]) >= 0 {
		i++
	}
	return i
}

func parseErr(c *Ctx, text string, how string) error {
	buf := append([]byte(text), "0123456789abcdef"...)
	o, err := J.Parse(buf[:len(text)])
	c.Check(err != nil, "%s, %s, is read as %s", q(text), how, objText(o))
	c.Check(string(buf) == text+"0123456789abcdef", "parsing %s, %s, changes the buffer to %s", q(text), how, q(string(buf)))
	_, err2 := J.ParseString(text)
	c.Check(err2 != nil && err2.Error() == err.Error(), "Parse and ParseString report different errors for %s: %v, %v", q(text), err, err2)
	if c.R.P(1, 4) {
		_, _, err2 := J.ParseStream([]byte(text), 0)
		c.Check(err2 != nil && err2.Error() == err.Error(), "Parse and ParseStream report different errors for %s: %v, %v", q(text), err, err2)
		var in interface{} = []byte(text)
		l, err3 := J.ParseJsonStreams(in.([]byte))
		if err3 != nil {
			c.Check(len(l) == 0, "an error of ParseJsonStreams comes with documents")
			// every bracket is where a document may start
			var want, got []string
			for i := range text {
				if text[i] == '[' || text[i] == '{' {
					want = append(want, strconv.Itoa(i))
				}
			}
			for _, m := range streamFail.FindAllStringSubmatch(err3.Error(), -1) {
				got = append(got, m[1])
			}
			c.Check(strings.Join(got, " ") == strings.Join(want, " "), "documents of the stream %s are said to fail at %v, not at %v", q(text), got, want)
			c.Ev("failed_starts", len(want))
		}
	}
	return err
}

var streamFail = regexp.MustCompile(`jsonutils\.ParseStream fail at (\d+)`)

func c29Text(c *Ctx, i int) {
	r := c.R
	var v *V
	for v == nil || v.K != KArr && v.K != KDict {
		v = r.doc(genOpt{maxSize: 16, depth: 4, str: sUTF8})
	}
	t := &texter{r: r, l: pick(r, []layout{layoutPlain, layoutWild, {ws: 3}})}
	for r.P(1, 2) {
		t.sb.WriteString(pick(r, []string{" ", "\n", "\t", "\r\n", "   "}))
	}
	t.val(v, 0)
	text := t.sb.String()
	c.Distinct(text)
	c.Sample("%s", q(text))
	for k := 0; k < 8; k++ {
		m := pick(r, t.marks)
		b := []byte(text)
		switch m.c {
		case ',', ':':
			b[m.pos] = ' '
			s := string(b)
			got := errPos(c, s, parseErr(c, s, "where a "+string(m.c)+" is missing"))
			want := nextNonBlank(s, m.pos)
			c.Check(got == want, "the error for %s, where the %c at %d is missing, tells the position %d instead of %d", q(s), m.c, m.pos, got, want)
			c.Ev("separator_missing", 1)
		case ']', '}':
			b[m.pos] ^= ']' ^ '}'
			s := string(b)
			got := errPos(c, s, parseErr(c, s, "with a wrong bracket"))
			c.Check(got == m.pos, "the error for %s, where the bracket at %d is wrong, tells the position %d", q(s), m.pos, got)
			c.Ev("wrong_bracket", 1)
		}
	}
	for k := 0; k < 6; k++ {
		cut := r.N(len(text) + 1)
		s := text[:cut]
		if cut == len(text) {
			s, cut = "", 0
		}
		got := errPos(c, s, parseErr(c, s, "the cut text"))
		// at the end, or in the escape that was cut
		low := max(0, len(s)-1)
		if e := strings.LastIndexByte(s[max(0, len(s)-7):], '\\'); e >= 0 {
			low = max(0, len(s)-7) + e
		}
		c.Check(got >= low && got <= len(s), "the error for the cut text %s of %d bytes tells the position %d", q(s), len(s), got)
		c.Ev("cut_off", 1)
	}
	// a wrong digit in an escape
	for k := 0; k < 3; k++ {
		pos := strings.IndexByte(text[r.N(len(text)):], '"')
		if pos < 0 {
			continue
		}
		bad := pick(r, []string{`\u12g4`, `\ux123`, `\u 123`, `\x4g`, `\xz1`, `\u00"0`})
		lead := strings.Repeat("é", r.N(9))
		s := "[" + strings.Repeat("1, ", r.N(5)) + `"` + lead + bad + pick(r, []string{`x"]`, `" ]`, `yyyyyyyyyyyyyyyyyyyy"]`})
		at := strings.Index(s, bad)
		if r.P(1, 2) {
			b := []byte(s)
			k := 2 + r.N(4)
			copy(b[at:], `\u00e9`)
			b[at+k] = notHex(r)
			s = string(b)
		}
		got := errPos(c, s, parseErr(c, s, "with a wrong escape"))
		c.Check(got >= at && got <= at+5, "the error for %s, where the escape at %d is wrong, tells the position %d", q(s), at, got)
		c.Ev("wrong_escape", 1)
	}
}

// c29Far: the mistake lies far inside a large text
func c29Far(c *Ctx, i int) {
	r := c.R
	n := pick(r, []int{400, 4000, 12000, 40000, 120000})
	pad := ""
	switch i % 4 {
	case 0:
		pad = "[" + strings.Repeat("1,", n/2)
	case 1:
		pad = "[" + strings.Repeat(" \n", n/2)
	case 2:
		pad = `["` + strings.Repeat("é", n/2) + `",`
	default:
		pad = "[" + strings.Repeat(`{"k":[],"l":"x"},`, n/17)
	}
	bad := pick(r, []string{`"\xz1"`, `"a" "b"]`, `{"k":1]`, `{"k" 1}`, `"\u00g0"`})
	high := len(pad) + len(bad)
	s := pad + bad + strings.Repeat(pick(r, []string{"]", " ", ",2"}), r.N(30))
	got := errPos(c, s, parseErr(c, s, "broken far inside"))
	c.Check(got >= len(pad) && got <= high, "the error for a text that is broken between %d and %d tells the position %d", len(pad), high, got)
	c.Distinct(s)
	c.Ev("far_mistakes", 1)
}

// c29Deep: the mistake lies under many open brackets
func c29Deep(c *Ctx, i int) {
	r := c.R
	depth := 10 + r.N(60)
	if r.P(1, 5) {
		depth = 100 + r.N(900)
	}
	var sb strings.Builder
	open := pick(r, []int{0, 1, 2})
	for k := 0; k < depth; k++ {
		if open == 0 || open == 2 && r.P(1, 2) {
			sb.WriteString(pick(r, []string{"[", "[", "[1,", `[{},`, "[ "}))
		} else {
			sb.WriteString(pick(r, []string{`{"k":`, `{"a":1,"k":`, `{"k" : `, `{"é":`}))
		}
	}
	low := sb.Len()
	bad := pick(r, []string{"", "", `"\xz1"`, `"a" "b"]`, `{"k":1]`, `{"k" 1}`, `[1}`, "[1 2]"})
	sb.WriteString(bad)
	high := sb.Len()
	if bad != "" {
		sb.WriteString(strings.Repeat(pick(r, []string{"]", "}", " ", ",2"}), r.N(30)))
	} else if low--; r.P(1, 2) {
		low++
		sb.WriteString("   ")
		high += 3
	}
	s := sb.String()
	err := parseErr(c, s, "broken deep inside")
	got := errPos(c, s, err)
	c.Check(got >= low && got <= high, "the error for a text that is broken between %d and %d, under %d brackets, tells the position %d: %s", low, high, depth, got, q(s))
	n := len(err.Error())
	c.Check(n < 400, "the message for a mistake under %d brackets has %d bytes: %s", depth, n, clip(err.Error(), 300))
	c.Distinct(s)
	c.Ev("deep_mistakes", 1)
}

func c29New(c *Ctx, i int) {
	r := c.R
	text := r.str(sAny)
	if r.P(1, 3) {
		text += r.str(sAny)
	}
	pos := r.N(len(text)+40) - 20
	if r.P(1, 10) {
		pos = pick(r, []int{-1, math.MaxInt, math.MinInt, len(text), len(text) - 1, len(text) + 1, 1 << 40})
	}
	msg := "broken"
	buf := []byte(text)
	e := J.NewJSONError(buf, pos, msg)
	want := min(max(pos, 0), max(0, len(text)-1))
	a, b := max(0, want-10), min(len(text), want+10)
	if len(text) == 0 {
		want = 0
	}
	s := fmt.Sprintf("JSON error broken at %d: ", want)
	if len(text) > 0 {
		s += text[a:want] + "^" + text[want:b]
	}
	s += "..."
	c.Check(e.Error() == s, "the error at %d of %s reads %s instead of %s", pos, q(text), q(e.Error()), q(s))
	c.Check(string(buf) == text, "making the error at %d of %s changes the buffer to %s", pos, q(text), q(string(buf)))
	for i := range buf {
		buf[i] = '!'
	}
	c.Check(e.Error() == s, "the error changes with the text it was made from")
	c.Distinct(text, strconv.Itoa(pos))
	c.Ev("made_errors", 1)
}

// c29Fields unmarshals objects of which some members do not fit
func c29Fields(c *Ctx, i int) {
	r := c.R
	seq, wide := 0, 0
	var bad, good []string
	isBad := map[string]bool{}
	var gen func(depth int) (reflect.Type, *V)
	gen = func(depth int) (reflect.Type, *V) {
		var fields []reflect.StructField
		v := vDict()
		for k := wide + 1 + r.N(5); k > 0; k-- {
			seq++
			name := fmt.Sprintf("m%dx", seq)
			var t reflect.Type
			var x *V
			fits := r.P(2, 3)
			switch r.N(7) {
			case 0:
				if depth > 0 {
					fits = true
					t, x = gen(depth - 1)
					if r.P(1, 3) {
						t = reflect.PointerTo(t)
					} else if r.P(1, 3) {
						t, x = reflect.SliceOf(t), vArr(x)
					} else if r.P(1, 3) {
						t, x = reflect.MapOf(rt[string](), t), &V{K: KDict, M: map[string]*V{"k": x}}
					}
					break
				}
				fallthrough
			case 1:
				t = pick(r, []reflect.Type{rt[int](), rt[uint8](), rt[int64](), rt[float32](), rt[*int](), rt[NInt]()})
				x = pick(r, []*V{vInt(5), vStr("12"), vNull()})
				if !fits {
					x = pick(r, []*V{vStr("nonsense"), vArr(), vDict(), vStr("1x")})
				}
			case 2:
				t, x = rt[bool](), pick(r, []*V{vBool(true), vStr("no"), vInt(1)})
				if !fits {
					x = pick(r, []*V{vArr(vBool(true)), vDict()})
				}
			case 3:
				t, x = rt[[]int](), vArr(vInt(1), vStr("2"))
				if !fits {
					x = pick(r, []*V{vArr(vInt(1), vStr("two")), vDict(), vBool(true), vInt(4)})
				}
			case 4:
				t, x = rt[[2]string](), vArr(vStr("a"), vStr("b"))
				if !fits {
					x = pick(r, []*V{vArr(vStr("a")), vArr(), vArr(vInt(1), vInt(2), vInt(3)), vDict()})
				}
			case 5:
				t, x = rt[map[string]int](), &V{K: KDict, M: map[string]*V{"k": vInt(1)}}
				if !fits {
					x = pick(r, []*V{vArr(vInt(1)), vStr("x"), vInt(3), {K: KDict, M: map[string]*V{"k": vStr("x")}}})
				}
			default:
				t, x = rt[*J.JSONDict](), vDict()
				if !fits {
					x = pick(r, []*V{vInt(1), vStr("x"), vArr(), vBool(false)})
				}
			}
			if fits {
				good = append(good, name)
			} else {
				bad = append(bad, name)
				isBad[name] = true
			}
			v.M[name] = x
			fields = append(fields, reflect.StructField{Name: strings.ToUpper(name), Type: t, Tag: reflect.StructTag(`json:"` + name + `"`)})
		}
		return reflect.StructOf(fields), v
	}
	depth := r.N(3)
	if r.P(1, 60) {
		depth, wide = 0, pick(r, []int{40, 100, 350})
	}
	t, v := gen(depth)
	c.Distinct(t.String(), v.text())
	c.Sample("%s into %s", clip(v.text(), 300), clip(t.String(), 300))
	dst := reflect.New(t)
	err := build(v).Unmarshal(dst.Interface())
	// the members that fit are set as if they were alone
	var fitting func(t reflect.Type, v *V, got reflect.Value)
	fitting = func(t reflect.Type, v *V, got reflect.Value) {
		for i := 0; i < t.NumField(); i++ {
			n := t.Field(i).Tag.Get("json")
			if isBad[n] {
				continue
			}
			if t.Field(i).Type.Kind() == reflect.Struct {
				fitting(t.Field(i).Type, v.M[n], got.Field(i))
				continue
			}
			alone := reflect.New(t)
			if build(&V{K: KDict, M: map[string]*V{n: v.M[n]}}).Unmarshal(alone.Interface()) != nil {
				continue // a misfit inside
			}
			c.Check(reflect.DeepEqual(got.Field(i).Interface(), alone.Elem().Field(i).Interface()), "unmarshalling %s into a %s gives %s the value %v instead of %v", v.text(), t, n, got.Field(i).Interface(), alone.Elem().Field(i).Interface())
			if len(bad) > 0 {
				c.Ev("fitting_beside_misfits", 1)
			}
		}
	}
	fitting(t, v, dst.Elem())
	if len(bad) == 0 {
		c.Check(err == nil, "unmarshalling %s into a %s fails: %v", v.text(), t, err)
		c.Ev("no_misfit", 1)
		return
	}
	c.Check(err != nil, "unmarshalling %s into a %s reports no error", v.text(), t)
	s := err.Error()
	// the values that it quotes name members, too
	var quoted []string
	v.walk(func(x *V) {
		if x != v && (x.K == KDict || x.K == KArr) {
			quoted = append(quoted, build(x).String())
		}
	})
	sort.Slice(quoted, func(i, j int) bool { return len(quoted[i]) > len(quoted[j]) })
	whole := s
	for _, t := range quoted {
		s = strings.ReplaceAll(s, t, "")
	}
	for _, n := range bad {
		// (in a list or map the first misfit ends the element)
		c.Check(strings.Contains(s, n), "the error of unmarshalling %s into a %s does not name %s: %s", v.text(), t, n, s)
		c.Ev("misfits_named", 1)
	}
	s = whole
	if depth == 0 {
		for _, n := range good {
			c.Check(!strings.Contains(s, n), "the error of unmarshalling %s into a %s names %s, which fits: %s", v.text(), t, n, s)
		}
	}
}

func init() {
	register(&Prop{
		ID:   "C29",
		Rule: "errors of parsing generated texts with a missing separator, a wrong bracket, a wrong escape or cut off: cause, position and excerpt; errors made for any text and position; errors of unmarshalling objects some of whose members do not fit into structs made at run time: the names they list; distinct texts and (type, object) pairs count",
		W: []Workload{
			{Name: "texts", N: counts(20000, 1500000), Run: c29Text},
			{Name: "far", N: counts(400, 10000), Run: c29Far},
			{Name: "deep", N: counts(1500, 40000), Run: c29Deep},
			{Name: "made", N: counts(20000, 500000), Run: c29New},
			{Name: "fields", N: counts(20000, 800000), Run: c29Fields},
		},
		MinEv: map[string]int64{"deep_mistakes": 1000, "separator_missing": 20000, "wrong_bracket": 20000, "cut_off": 60000, "wrong_escape": 5000, "made_errors": 10000, "misfits_named": 15000, "far_mistakes": 300},
	})
}
