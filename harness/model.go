package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	J "yunion.io/x/jsonutils"
)

// The reference model of a document.

type Kind int

const (
	KNull Kind = iota
	KBool
	KInt
	KFloat
	KStr
	KArr
	KDict
	KRef
	KBad
)

var kindNames = []string{"null", "bool", "int", "float", "string", "array", "object", "reference", "bad"}

func (k Kind) String() string { return kindNames[k] }

type V struct {
	K   Kind
	B   bool
	I   int64
	F   float64
	F32 bool
	S   string
	A   []*V
	M   map[string]*V
	// only for the layout of printed references
	Id, Ref int
}

func vNull() *V           { return &V{K: KNull} }
func vBool(b bool) *V     { return &V{K: KBool, B: b} }
func vInt(i int64) *V     { return &V{K: KInt, I: i} }
func vFloat(f float64) *V { return &V{K: KFloat, F: f} }
func vStr(s string) *V    { return &V{K: KStr, S: s} }
func vArr(a ...*V) *V     { return &V{K: KArr, A: a} }
func vDict() *V           { return &V{K: KDict, M: map[string]*V{}} }

func (v *V) keys() []string {
	ret := make([]string, 0, len(v.M))
	for k := range v.M {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}

func (v *V) clone() *V {
	ret := *v
	if v.K == KArr {
		ret.A = make([]*V, len(v.A))
		for i := range v.A {
			ret.A[i] = v.A[i].clone()
		}
	}
	if v.K == KDict {
		ret.M = make(map[string]*V, len(v.M))
		for k, x := range v.M {
			ret.M[k] = x.clone()
		}
	}
	return &ret
}

func (v *V) size() int {
	n := 1
	for _, x := range v.A {
		n += x.size()
	}
	for _, x := range v.M {
		n += x.size()
	}
	return n
}

func (v *V) depth() int {
	d := 0
	for _, x := range v.A {
		if k := x.depth(); k > d {
			d = k
		}
	}
	for _, x := range v.M {
		if k := x.depth(); k > d {
			d = k
		}
	}
	return d + 1
}

// any reports whether some node satisfies f
func (v *V) any(f func(*V) bool) bool {
	if f(v) {
		return true
	}
	for _, x := range v.A {
		if x.any(f) {
			return true
		}
	}
	for _, x := range v.M {
		if x.any(f) {
			return true
		}
	}
	return false
}

// cmp modes
const (
	exact   = iota // kinds and bits of the numbers
	numeric        // integers and floats of the same numeric value are the same
	decode         // the first is what a text denotes: integers are exact, floats by value
)

// diff describes the first difference of two documents, "" if there is none
func diff(a, b *V, mode int) string { return diffAt(a, b, mode, "$") }

// numEq compares an expected number with an observed one
func numEq(a, b *V) bool {
	switch {
	case a.K == KInt && b.K == KInt:
		return a.I == b.I
	case a.K == KFloat && b.K == KFloat:
		if a.F == b.F {
			return true
		}
		if a.F32 || b.F32 {
			return float32(a.F) == float32(b.F)
		}
		return false
	case a.K == KInt:
		if b.F32 {
			return float32(b.F) == float32(a.I) && float64(float32(a.I)) == b.F
		}
		x := new(big.Float).SetPrec(2000).SetInt64(a.I)
		if math.IsInf(b.F, 0) || math.IsNaN(b.F) {
			return false
		}
		return x.Cmp(new(big.Float).SetPrec(2000).SetFloat64(b.F)) == 0
	default:
		// the shortest decimal text of a large float may be read as an
		// integer whose nearest double it is
		if a.F32 {
			return float32(b.I) == float32(a.F)
		}
		return float64(b.I) == a.F
	}
}

func isNum(v *V) bool { return v.K == KInt || v.K == KFloat }

func diffAt(a, b *V, mode int, path string) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("%s: one is missing", path)
	}
	if (mode == numeric || mode == decode && a.K == KFloat) && isNum(a) && isNum(b) {
		if numEq(a, b) {
			return ""
		}
		// an integral float beyond 2^53 is printed exactly and may read as
		// an integer: compared above with arbitrary precision
		return fmt.Sprintf("%s: number %s vs %s", path, a.brief(), b.brief())
	}
	if a.K != b.K {
		return fmt.Sprintf("%s: %s vs %s", path, a.brief(), b.brief())
	}
	switch a.K {
	case KBool:
		if a.B != b.B {
			return fmt.Sprintf("%s: %v vs %v", path, a.B, b.B)
		}
	case KInt:
		if a.I != b.I {
			return fmt.Sprintf("%s: %d vs %d", path, a.I, b.I)
		}
	case KFloat:
		if a.F != b.F && !(math.IsNaN(a.F) && math.IsNaN(b.F)) {
			return fmt.Sprintf("%s: %v vs %v", path, a.F, b.F)
		}
	case KStr, KRef, KBad:
		if a.S != b.S {
			return fmt.Sprintf("%s: %s vs %s", path, q(a.S), q(b.S))
		}
	case KArr:
		if len(a.A) != len(b.A) {
			return fmt.Sprintf("%s: %d elements vs %d", path, len(a.A), len(b.A))
		}
		for i := range a.A {
			if d := diffAt(a.A[i], b.A[i], mode, path+"["+strconv.Itoa(i)+"]"); d != "" {
				return d
			}
		}
	case KDict:
		for _, k := range a.keys() {
			x, ok := b.M[k]
			if !ok {
				return fmt.Sprintf("%s: member %s is missing in the second", path, q(k))
			}
			if d := diffAt(a.M[k], x, mode, path+"."+clip(k, 60)); d != "" {
				return d
			}
		}
		for _, k := range b.keys() {
			if _, ok := a.M[k]; !ok {
				return fmt.Sprintf("%s: member %s is only in the second", path, q(k))
			}
		}
	}
	return ""
}

func (v *V) brief() string {
	if v == nil {
		return "(none)"
	}
	switch v.K {
	case KNull:
		return "null"
	case KBool:
		return fmt.Sprint(v.B)
	case KInt:
		return fmt.Sprintf("int %d", v.I)
	case KFloat:
		return "float " + strconv.FormatFloat(v.F, 'g', -1, 64)
	case KStr:
		return "string " + q(v.S)
	default:
		return v.K.String() + " " + clip(v.text(), 300)
	}
}

// text is a canonical text of the model, for messages and fingerprints
func (v *V) text() string {
	sb := &strings.Builder{}
	v.write(sb)
	return sb.String()
}

func (v *V) write(sb *strings.Builder) {
	switch v.K {
	case KNull:
		sb.WriteString("null")
	case KBool:
		fmt.Fprint(sb, v.B)
	case KInt:
		fmt.Fprint(sb, v.I)
	case KFloat:
		fmt.Fprintf(sb, "%se0", strconv.FormatFloat(v.F, 'g', -1, 64))
	case KStr:
		fmt.Fprintf(sb, "%q", v.S)
	case KRef, KBad:
		fmt.Fprintf(sb, "<%s>", v.S)
	case KArr:
		sb.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				sb.WriteByte(',')
			}
			x.write(sb)
		}
		sb.WriteByte(']')
	case KDict:
		sb.WriteByte('{')
		for i, k := range v.keys() {
			if i > 0 {
				sb.WriteByte(',')
			}
			fmt.Fprintf(sb, "%q:", k)
			v.M[k].write(sb)
		}
		sb.WriteByte('}')
	}
}

// observe reads a document through the public interface
func observe(o J.JSONObject) *V {
	switch x := o.(type) {
	case nil:
		return &V{K: KBad, S: "nil interface"}
	case *J.JSONBool:
		if x == nil {
			return &V{K: KBad, S: "nil bool"}
		}
		return vBool(x.Value())
	case *J.JSONInt:
		if x == nil {
			return &V{K: KBad, S: "nil int"}
		}
		return vInt(x.Value())
	case *J.JSONFloat:
		if x == nil {
			return &V{K: KBad, S: "nil float"}
		}
		return vFloat(x.Value())
	case *J.JSONString:
		if x == nil {
			return &V{K: KBad, S: "nil string"}
		}
		return vStr(x.Value())
	case *J.JSONArray:
		if x == nil {
			return &V{K: KBad, S: "nil array"}
		}
		arr, err := x.GetArray()
		if err != nil {
			return &V{K: KBad, S: "GetArray: " + err.Error()}
		}
		ret := &V{K: KArr, A: make([]*V, len(arr))}
		for i := range arr {
			ret.A[i] = observe(arr[i])
		}
		return ret
	case *J.JSONDict:
		if x == nil {
			return &V{K: KBad, S: "nil dict"}
		}
		m, err := x.GetMap()
		if err != nil {
			return &V{K: KBad, S: "GetMap: " + err.Error()}
		}
		ret := &V{K: KDict, M: make(map[string]*V, len(m))}
		for k, c := range m {
			ret.M[k] = observe(c)
		}
		return ret
	case *J.JSONValue:
		if x == nil {
			return &V{K: KBad, S: "nil null"}
		}
		return vNull()
	default:
		return &V{K: KRef, S: o.String()}
	}
}

// plain is the plain Go value of a model
func (v *V) plain() interface{} {
	switch v.K {
	case KBool:
		return v.B
	case KInt:
		return v.I
	case KFloat:
		if v.F32 {
			return float32(v.F)
		}
		return v.F
	case KStr:
		return v.S
	case KArr:
		ret := make([]interface{}, len(v.A))
		for i := range v.A {
			ret[i] = v.A[i].plain()
		}
		return ret
	case KDict:
		ret := make(map[string]interface{}, len(v.M))
		for k, x := range v.M {
			ret[k] = x.plain()
		}
		return ret
	}
	return nil
}

// Building documents

func scalarDoc(v *V) J.JSONObject {
	switch v.K {
	case KNull:
		return J.JSONNull
	case KBool:
		return J.NewBool(v.B)
	case KInt:
		return J.NewInt(v.I)
	case KFloat:
		if v.F32 {
			return J.NewFloat32(float32(v.F))
		}
		if math.Float64bits(v.F)%8 == 0 {
			return J.NewFloat(v.F)
		}
		return J.NewFloat64(v.F)
	case KStr:
		return J.NewString(v.S)
	}
	panic("not a scalar")
}

// build makes a document with sets and adds only
func build(v *V) J.JSONObject {
	switch v.K {
	case KArr:
		ret := J.NewArray()
		for _, x := range v.A {
			ret.Add(build(x))
		}
		return ret
	case KDict:
		ret := J.NewDict()
		for k, x := range v.M {
			ret.Set(k, build(x))
		}
		return ret
	}
	return scalarDoc(v)
}

// buildVia makes a document of the content along randomly chosen routes
func buildVia(r *Rand, v *V) J.JSONObject {
	has32 := v.any(func(x *V) bool { return x.F32 })
	finite := !v.any(func(x *V) bool { return x.K == KFloat && (math.IsNaN(x.F) || math.IsInf(x.F, 0)) })
	return viaRoute(r, v, has32, finite, 0)
}

func viaRoute(r *Rand, v *V, has32, finite bool, level int) J.JSONObject {
	if level > 14 {
		return build(v)
	}
	sub := func(x *V) J.JSONObject { return viaRoute(r, x, has32, finite, level+1) }
	route := r.N(12)
	if v.K != KArr && v.K != KDict {
		return scalarDoc(v)
	}
	switch route {
	case 0:
		if !has32 && finite {
			if o, err := J.ParseString(writeText(r, v, layoutPlain)); err == nil {
				return o
			}
		}
	case 1:
		return J.DeepCopy(sub(v))
	case 2:
		if !has32 {
			return J.MarshalAll(v.plain())
		}
	case 3:
		if !has32 && finite && v.depth() <= 10 {
			o := sub(v)
			txt := o.PrettyString()
			if len(txt) < 4000 {
				if p, err := J.ParseString(txt); err == nil && diff(observe(p), v, exact) == "" {
					return p
				}
			}
			return o
		}
	case 4:
		if d, ok := sub(v).(*J.JSONDict); ok {
			return d.Copy()
		}
	case 5:
		if a, ok := sub(v).(*J.JSONArray); ok {
			return a.Copy()
		}
	}
	if v.K == KArr {
		var objs []J.JSONObject
		for _, x := range v.A {
			objs = append(objs, sub(x))
		}
		switch r.N(4) {
		case 0:
			return J.NewArray(objs...)
		case 1:
			ret := J.NewArray()
			ret.Add(objs...)
			return ret
		case 2:
			ret := J.NewArray()
			for range objs {
				ret.Add(J.NewString("placeholder"))
			}
			for _, i := range r.Perm(len(objs)) {
				ret.SetAt(i, objs[i])
			}
			return ret
		default:
			n := 0
			if len(objs) > 0 {
				n = r.N(len(objs) + 1)
			}
			ret := J.NewArray(objs[:n]...)
			for _, o := range objs[n:] {
				ret.Add(o)
			}
			return ret
		}
	}
	ks := shuffled(r, v.keys())
	ret := J.NewDict()
	var extra []string
	switch r.N(4) {
	case 0: // in halves
		other := J.NewDict()
		for _, k := range ks {
			if r.P(1, 2) {
				ret.Set(k, sub(v.M[k]))
			} else {
				other.Set(k, sub(v.M[k]))
			}
		}
		if r.P(1, 2) {
			ret.Update(other)
		} else {
			ret.UpdateDefault(other)
		}
		return ret
	case 1: // with members that are removed or overwritten later
		for _, k := range ks {
			if r.P(1, 3) {
				e := k + "x" + strconv.Itoa(r.N(9))
				if _, ok := v.M[e]; !ok && e != "___jnid_" {
					ret.Set(e, J.NewInt(1))
					extra = append(extra, e)
				}
			}
			if r.P(1, 3) {
				ret.Set(k, J.NewString("old"))
			}
			if r.P(1, 5) {
				ret.Remove(k)
			}
			ret.Set(k, sub(v.M[k]))
		}
		for _, e := range extra {
			ret.Remove(e)
		}
		return ret
	default:
		for _, k := range ks {
			if r.P(1, 2) {
				ret.Set(k, sub(v.M[k]))
			} else {
				ret.Add(sub(v.M[k]), k)
			}
		}
		return ret
	}
}

// Writing JSON text in all its variants

type layout struct {
	ws      int // 0 none, else up to ws characters of white space anywhere
	escapes bool
	nums    bool
	dups    bool
}

var (
	layoutPlain = layout{}
	layoutWild  = layout{ws: 3, escapes: true, nums: true}
)

type texter struct {
	r  *Rand
	l  layout
	sb strings.Builder
	// positions of structural characters, for damage
	marks []mark
}

type mark struct {
	pos   int
	c     byte
	depth int
}

func (t *texter) ws() {
	if t.l.ws > 0 && t.r.P(1, 2) {
		for i := t.r.N(t.l.ws + 1); i > 0; i-- {
			t.sb.WriteByte(" \t\r\n"[t.r.N(4)])
		}
	}
}

func (t *texter) mark(c byte, depth int) {
	t.marks = append(t.marks, mark{t.sb.Len(), c, depth})
	t.sb.WriteByte(c)
}

func writeText(r *Rand, v *V, l layout) string {
	t := &texter{r: r, l: l}
	t.val(v, 0)
	return t.sb.String()
}

func (t *texter) hex4(u uint16) {
	const lo, up = "0123456789abcdef", "0123456789ABCDEF"
	t.sb.WriteString("\\u")
	for s := 12; s >= 0; s -= 4 {
		if t.r.P(1, 2) {
			t.sb.WriteByte(lo[u>>uint(s)&15])
		} else {
			t.sb.WriteByte(up[u>>uint(s)&15])
		}
	}
}

func (t *texter) str(s string) {
	t.sb.WriteByte('"')
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		raw := s[i : i+n]
		i += n
		short := map[rune]string{'"': `\"`, '\\': `\\`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '/': `\/`}[c]
		must := c == '"' || c == '\\' || c < 0x20
		if c == utf8.RuneError && n == 1 {
			t.sb.WriteString(raw)
			continue
		}
		if !must && !(t.l.escapes && t.r.P(1, 4)) {
			t.sb.WriteString(raw)
			continue
		}
		if short != "" && (!t.l.escapes || t.r.P(1, 2)) {
			t.sb.WriteString(short)
			continue
		}
		if c > 0xffff {
			a, b := utf16.EncodeRune(c)
			t.hex4(uint16(a))
			t.hex4(uint16(b))
		} else {
			t.hex4(uint16(c))
		}
	}
	t.sb.WriteByte('"')
}

// floatText spells a float with a point or an exponent, so that it is no
// plain integer
func floatText(r *Rand, f float64, variants bool) string {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		panic("not finite")
	}
	neg := math.Signbit(f)
	a := math.Abs(f)
	var s string
	mode := 0
	if variants {
		mode = r.N(5)
	}
	switch mode {
	case 0:
		s = strconv.FormatFloat(a, 'g', -1, 64)
	case 1:
		s = strconv.FormatFloat(a, 'e', -1, 64)
	case 2:
		s = strings.ToUpper(strconv.FormatFloat(a, 'e', -1, 64))
	case 3:
		s = strconv.FormatFloat(a, 'f', -1, 64)
	case 4:
		s = strings.Replace(strconv.FormatFloat(a, 'e', -1, 64), "e+", "e", 1)
	}
	if !strings.ContainsAny(s, ".eE") {
		s += ".0"
	}
	if variants && r.P(1, 3) {
		// more zeros after the fraction
		if p := strings.IndexAny(s, "eE"); p >= 0 {
			m := s[:p]
			if !strings.Contains(m, ".") {
				m += "."
			}
			s = m + strings.Repeat("0", 1+r.N(5)) + s[p:]
		} else {
			s += strings.Repeat("0", r.N(5))
		}
	}
	if neg {
		s = "-" + s
	}
	return s
}

func (t *texter) val(v *V, depth int) {
	switch v.K {
	case KNull:
		t.sb.WriteString("null")
	case KBool:
		t.sb.WriteString(strconv.FormatBool(v.B))
	case KInt:
		t.sb.WriteString(strconv.FormatInt(v.I, 10))
	case KFloat:
		t.sb.WriteString(floatText(t.r, v.F, t.l.nums))
	case KStr:
		t.str(v.S)
	case KArr:
		t.mark('[', depth)
		t.ws()
		for i, x := range v.A {
			if i > 0 {
				t.mark(',', depth)
				t.ws()
			}
			t.val(x, depth+1)
			t.ws()
		}
		t.mark(']', depth)
	case KDict:
		t.mark('{', depth)
		t.ws()
		ks := v.keys()
		if t.l != layoutPlain || t.r.P(1, 2) {
			ks = shuffled(t.r, ks)
		}
		for i, k := range ks {
			if i > 0 {
				t.mark(',', depth)
				t.ws()
			}
			if t.l.dups && t.r.P(1, 5) {
				// an earlier duplicate that does not count
				t.str(k)
				t.ws()
				t.sb.WriteByte(':')
				t.ws()
				t.val(pick(t.r, []*V{vInt(0), vNull(), vStr("dup"), vArr(vInt(1)), vDict(), dupDict, vArr(dupDict)}), depth+1)
				t.ws()
				t.sb.WriteByte(',')
				t.ws()
			}
			t.str(k)
			t.ws()
			t.mark(':', depth)
			t.ws()
			t.val(v.M[k], depth+1)
			t.ws()
		}
		t.mark('}', depth)
	}
}

// An independent strict decoder of RFC 8259 texts. Duplicate names are an
// error. Member order is recorded.

type decoder struct {
	s      string
	i      int
	anyRaw bool // accept bytes that are not UTF-8
	// sorted is false when some object's names are not in ascending order
	sorted bool
	nodes  map[int64]*V
}

func decodeStrict(s string, anyRaw bool) (v *V, sorted bool, err error) {
	d := &decoder{s: s, anyRaw: anyRaw, sorted: true}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(decErr); ok {
				err = fmt.Errorf("%s at %d: %s", e.msg, d.i, q(d.s[max(0, d.i-20):min(len(d.s), d.i+20)]))
				return
			}
			panic(r)
		}
	}()
	d.ws()
	v = d.val()
	d.ws()
	if d.i != len(d.s) {
		d.fail("trailing characters")
	}
	return v, d.sorted, nil
}

type decErr struct{ msg string }

func (d *decoder) fail(m string) { panic(decErr{m}) }

func (d *decoder) peek() byte {
	if d.i >= len(d.s) {
		d.fail("unexpected end")
	}
	return d.s[d.i]
}

func (d *decoder) ws() {
	for d.i < len(d.s) {
		switch d.s[d.i] {
		case ' ', '\t', '\n', '\r':
			d.i++
		default:
			return
		}
	}
}

func (d *decoder) lit(l string, v *V) *V {
	if !strings.HasPrefix(d.s[d.i:], l) {
		d.fail("bad literal")
	}
	d.i += len(l)
	return v
}

func (d *decoder) val() *V {
	switch c := d.peek(); {
	case c == 'n':
		return d.lit("null", vNull())
	case c == 't':
		return d.lit("true", vBool(true))
	case c == 'f':
		return d.lit("false", vBool(false))
	case c == '"':
		return vStr(d.str())
	case c == '-' || c >= '0' && c <= '9':
		return d.num()
	case c == '[':
		d.i++
		ret := &V{K: KArr}
		d.ws()
		if d.peek() == ']' {
			d.i++
			return ret
		}
		for {
			d.ws()
			ret.A = append(ret.A, d.val())
			d.ws()
			if d.peek() == ']' {
				d.i++
				return ret
			}
			if d.peek() != ',' {
				d.fail("expected , or ]")
			}
			d.i++
		}
	case c == '{':
		d.i++
		ret := vDict()
		d.ws()
		if d.peek() == '}' {
			d.i++
			return ret
		}
		last, first := "", true
		for {
			d.ws()
			if d.peek() != '"' {
				d.fail("expected a name")
			}
			k := d.str()
			if _, dup := ret.M[k]; dup {
				d.fail("duplicate name " + q(k))
			}
			if !first && !(last < k) {
				d.sorted = false
			}
			last, first = k, false
			d.ws()
			if d.peek() != ':' {
				d.fail("expected :")
			}
			d.i++
			d.ws()
			ret.M[k] = d.val()
			d.ws()
			if d.peek() == '}' {
				d.i++
				return ret
			}
			if d.peek() != ',' {
				d.fail("expected , or }")
			}
			d.i++
		}
	}
	d.fail("unexpected character")
	return nil
}

func (d *decoder) hex4() rune {
	if d.i+4 > len(d.s) {
		d.fail("short \\u")
	}
	n, err := strconv.ParseUint(d.s[d.i:d.i+4], 16, 16)
	if err != nil {
		d.fail("bad \\u")
	}
	d.i += 4
	return rune(n)
}

func (d *decoder) str() string {
	d.i++
	var sb strings.Builder
	for {
		c := d.peek()
		switch {
		case c == '"':
			d.i++
			return sb.String()
		case c < 0x20:
			d.fail("raw control character")
		case c == '\\':
			d.i++
			e := d.peek()
			d.i++
			switch e {
			case '"', '\\', '/':
				sb.WriteByte(e)
			case 'b':
				sb.WriteByte('\b')
			case 'f':
				sb.WriteByte('\f')
			case 'n':
				sb.WriteByte('\n')
			case 'r':
				sb.WriteByte('\r')
			case 't':
				sb.WriteByte('\t')
			case 'u':
				r := d.hex4()
				if utf16.IsSurrogate(r) {
					if strings.HasPrefix(d.s[d.i:], "\\u") {
						save := d.i
						d.i += 2
						r2 := d.hex4()
						if x := utf16.DecodeRune(r, r2); x != utf8.RuneError {
							sb.WriteRune(x)
							continue
						}
						d.i = save
					}
					r = utf8.RuneError
				}
				sb.WriteRune(r)
			default:
				d.fail("bad escape")
			}
		case c < 0x80:
			sb.WriteByte(c)
			d.i++
		default:
			r, n := utf8.DecodeRuneInString(d.s[d.i:])
			if r == utf8.RuneError && n == 1 && !d.anyRaw {
				d.fail("invalid UTF-8")
			}
			sb.WriteString(d.s[d.i : d.i+n])
			d.i += n
		}
	}
}

func (d *decoder) num() *V {
	st := d.i
	digits := func() int {
		n := 0
		for d.i < len(d.s) && d.s[d.i] >= '0' && d.s[d.i] <= '9' {
			d.i++
			n++
		}
		return n
	}
	if d.s[d.i] == '-' {
		d.i++
	}
	if d.i < len(d.s) && d.s[d.i] == '0' {
		d.i++
	} else if digits() == 0 {
		d.fail("bad number")
	}
	plain := true
	if d.i < len(d.s) && d.s[d.i] == '.' {
		plain = false
		d.i++
		if digits() == 0 {
			d.fail("bad fraction")
		}
	}
	if d.i < len(d.s) && (d.s[d.i] == 'e' || d.s[d.i] == 'E') {
		plain = false
		d.i++
		if d.i < len(d.s) && (d.s[d.i] == '+' || d.s[d.i] == '-') {
			d.i++
		}
		if digits() == 0 {
			d.fail("bad exponent")
		}
	}
	tok := d.s[st:d.i]
	if plain {
		if n, err := strconv.ParseInt(tok, 10, 64); err == nil {
			return vInt(n)
		}
	}
	f, err := strconv.ParseFloat(tok, 64)
	if err != nil {
		d.fail("number out of range")
	}
	return vFloat(f)
}

// a repeated member's earlier value
var dupDict = &V{K: KDict, M: map[string]*V{"a": vInt(9), "dup": &V{K: KDict, M: map[string]*V{"a": vArr(vInt(7), vNull())}}, "é": vNull()}}
