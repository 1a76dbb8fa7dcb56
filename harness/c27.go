package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	J "yunion.io/x/jsonutils"
)

// C27: a type's own JSON methods
//
// The types below log every call of their methods. Every value holds a token;
// the token's entry in the log tells which text the value writes, how often it
// was asked for it, and which texts were handed to the reading method.

type logEntry struct {
	mu     sync.Mutex
	out    string // what MarshalJSON returns
	want   string // the text that UnmarshalJSON is to get
	fail   bool   // UnmarshalJSON fails
	noText bool   // MarshalJSON fails
	calls  int
	got    []string
}

var logTab sync.Map // token -> *logEntry

var logTokRE = regexp.MustCompile(`tok(\d+)`)
var logNumRE = regexp.MustCompile(`^(\d+)(\.5)?$`)

func logTokenOf(s string) int64 {
	m := logTokRE.FindStringSubmatch(s)
	if m == nil {
		m = logNumRE.FindStringSubmatch(s)
	}
	if m == nil {
		return -1
	}
	n, _ := strconv.ParseInt(m[1], 10, 64)
	return n
}

func logOf(tok int64) *logEntry {
	if e, ok := logTab.Load(tok); ok {
		return e.(*logEntry)
	}
	return nil
}

func logMarshal(s string) ([]byte, error) {
	e := logOf(logTokenOf(s))
	if e == nil {
		return nil, fmt.Errorf("no token in %q", s)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.calls++
	if e.noText {
		return nil, fmt.Errorf("has no text")
	}
	return []byte(e.out), nil
}

func logUnmarshal(b []byte) error {
	e := logOf(logTokenOf(string(b)))
	if e == nil {
		return fmt.Errorf("no token in %q", b)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.got = append(e.got, string(b))
	if e.fail {
		return fmt.Errorf("will not take %s", b)
	}
	return nil
}

type LogStr string

func (l LogStr) MarshalJSON() ([]byte, error) { return logMarshal(string(l)) }
func (l *LogStr) UnmarshalJSON(b []byte) error {
	*l = LogStr(b)
	return logUnmarshal(b)
}

type LogInt int64

func (l LogInt) MarshalJSON() ([]byte, error) {
	return logMarshal("tok" + strconv.FormatInt(int64(l), 10))
}
func (l *LogInt) UnmarshalJSON(b []byte) error {
	*l = LogInt(logTokenOf(string(b)))
	return logUnmarshal(b)
}

type LogStruct struct {
	S    string
	Note *int
}

func (l LogStruct) MarshalJSON() ([]byte, error) { return logMarshal(l.S) }
func (l *LogStruct) UnmarshalJSON(b []byte) error {
	l.S = string(b)
	return logUnmarshal(b)
}

type LogList []string

func (l LogList) MarshalJSON() ([]byte, error) { return logMarshal(l[0]) }
func (l *LogList) UnmarshalJSON(b []byte) error {
	*l = LogList{string(b)}
	return logUnmarshal(b)
}

type LogMap map[string]string

func (l LogMap) MarshalJSON() ([]byte, error) { return logMarshal(l["s"]) }
func (l *LogMap) UnmarshalJSON(b []byte) error {
	*l = LogMap{"s": string(b)}
	return logUnmarshal(b)
}

// LogPtr writes itself behind a pointer only
type LogPtr struct {
	S string `json:"s"`
}

func (l *LogPtr) MarshalJSON() ([]byte, error) { return logMarshal(l.S) }
func (l *LogPtr) UnmarshalJSON(b []byte) error {
	l.S = string(b)
	return logUnmarshal(b)
}

// LogEmb has the methods of what it embeds
type LogEmb struct {
	LogStruct
	Other int
}

// LogNest's methods use the package themselves
type LogNest struct {
	N     int64
	Inner []LogStr
	P     *LogStruct
}

type logNestForm struct {
	N     string     `json:"n"`
	Inner []LogStr   `json:"inner"`
	P     *LogStruct `json:"p"`
}

func (l LogNest) MarshalJSON() ([]byte, error) {
	f := logNestForm{"tok" + strconv.FormatInt(l.N, 10), l.Inner, l.P}
	if _, err := logMarshal(f.N); err != nil {
		return nil, err
	}
	return []byte(J.Marshal(f).PrettyString()), nil
}

func (l *LogNest) UnmarshalJSON(b []byte) error {
	o, err := J.Parse(b)
	if err != nil {
		return err
	}
	s, _ := o.GetString("n")
	if err := logUnmarshal([]byte(s + string(b))); err != nil {
		return err
	}
	var f logNestForm
	if err = o.Unmarshal(&f); err != nil {
		return err
	}
	*l = LogNest{logTokenOf(f.N), f.Inner, f.P}
	return nil
}

// logText is the text that a value of the types has got
func logText(v reflect.Value) (string, bool) {
	switch x := v.Interface().(type) {
	case LogStr:
		return string(x), true
	case LogStruct:
		return x.S, true
	case LogEmb:
		return x.S, true
	case LogList:
		return strings.Join(x, ""), true
	case LogMap:
		return x["s"], true
	case LogPtr:
		return x.S, true
	case LogInt:
		if e := logOf(int64(x)); e != nil {
			return e.want, true
		}
		return fmt.Sprint("no such token ", int64(x)), true
	}
	return "", false
}

var logTypes = []reflect.Type{rt[LogStr](), rt[LogInt](), rt[LogStruct](), rt[LogList](), rt[LogMap](), rt[LogPtr](), rt[LogEmb](), rt[LogNest]()}

type logGen struct {
	r    *Rand
	toks []int64
	all  bool // nothing is omitted
	seq  int
	open bool // values that cannot be read back
	box  map[int64]int
	nbox int
}

var logGenOpt = genOpt{str: sUTF8, maxSize: 6, depth: 2, noNeg0: true, strOK: func(s string) bool { return !strings.Contains(s, "tok") }, keyOK: func(s string) bool { return !strings.Contains(s, "tok") && s != "tk" }}

// doc makes a document that carries the token
func (g *logGen) doc(tok int64) *V {
	v := g.doc0(tok)
	if v.K == KStr && !logTokRE.MatchString(v.S) {
		v.S = strings.Replace(v.S, "%", "tok"+strconv.FormatInt(tok, 10), 1)
	}
	return v
}

func (g *logGen) doc0(tok int64) *V {
	r := g.r
	s := "tok" + strconv.FormatInt(tok, 10)
	switch r.N(10) {
	case 9:
		// a text that looks like other JSON
		return vStr(pick(r, []string{`{"tk":"%"}`, `["%"]`, `[%]`, `{%}`, `"%"`, `'%'`, `[%`, `{"a":1,"t":"%"`, "{}%", "[]%", "null%", " %", "%\n", "true %", "%.5"}))
	case 0:
		return vInt(tok)
	case 1:
		return vFloat(float64(tok) + .5)
	case 2, 3:
		return vArr(shuffled(r, []*V{vStr(s), r.doc(logGenOpt), r.doc(logGenOpt)})...)
	case 4, 5:
		v := r.dict(logGenOpt)
		v.M["tk"] = vStr(s)
		return v
	case 6:
		if g.open {
			return pick(r, []*V{vNull(), vBool(true), vBool(false), vStr(""), vArr(), vDict(), vInt(0)})
		}
		return vStr(s)
	case 7:
		return vStr(s + pick(r, []string{"|", "é\"\\\n<&", "\\", "\n", "\x7f", "\u2028", "/", "\t'", "\"", "\\u0041"}) + strings.ReplaceAll(r.str(sUTF8), "tok", ""))
	}
	return vStr(s)
}

func (g *logGen) entry() (int64, string, *logEntry) {
	tok := g.r.Int64N(1<<50) + 1<<40
	e := &logEntry{}
	logTab.Store(tok, e)
	g.toks = append(g.toks, tok)
	g.box[tok] = g.nbox
	return tok, "tok" + strconv.FormatInt(tok, 10), e
}

// custom makes a value with methods and the document it writes
func (g *logGen) custom(t reflect.Type, addressed bool) (reflect.Value, *V) {
	r := g.r
	tok, s, e := g.entry()
	v := g.doc(tok)
	set := func(x interface{}) (reflect.Value, *V) {
		e.out = writeText(r, v, pick(r, []layout{layoutPlain, layoutWild, {ws: 2, dups: true}}))
		e.want = build(v).String()
		return reflect.ValueOf(x), v
	}
	switch t {
	case rt[LogStr]():
		return set(LogStr(s))
	case rt[LogInt]():
		return set(LogInt(tok))
	case rt[LogStruct]():
		return set(LogStruct{S: s})
	case rt[LogList]():
		return set(LogList{s})
	case rt[LogMap]():
		return set(LogMap{"s": s})
	case rt[LogEmb]():
		return set(LogEmb{LogStruct{S: s}, 7})
	case rt[LogPtr]():
		if !addressed {
			v = &V{K: KDict, M: map[string]*V{"s": vStr(s)}}
			x, _ := set(LogPtr{s})
			e.calls = 1 // the method does not apply
			return x, v
		}
		return set(LogPtr{s})
	default:
		n := LogNest{N: tok}
		v = &V{K: KDict, M: map[string]*V{"n": vStr(s)}}
		box := g.nbox
		g.nbox = -1
		defer func() { g.nbox = box }()
		for i := r.N(3); i > 0; i-- {
			x, d := g.custom(rt[LogStr](), false)
			n.Inner = append(n.Inner, x.Interface().(LogStr))
			if v.M["inner"] == nil {
				v.M["inner"] = vArr()
			}
			v.M["inner"].A = append(v.M["inner"].A, d)
		}
		if r.P(1, 2) {
			x, d := g.custom(rt[LogStruct](), true)
			p := x.Interface().(LogStruct)
			n.P = &p
			v.M["p"] = d
		}
		e.want = s + build(v).String()
		return reflect.ValueOf(n), v
	}
}

// val makes a value of a new type and the document it is marshalled to
func (g *logGen) val(depth int, addressed bool) (reflect.Value, *V) {
	r := g.r
	g.seq++
	ptr := func(x reflect.Value) reflect.Value {
		p := reflect.New(x.Type())
		p.Elem().Set(x)
		return p
	}
	if depth == 0 || r.P(1, 3) {
		if r.P(1, 6) {
			n := 1 + r.N(1000)
			return reflect.ValueOf(n), vInt(int64(n))
		}
		return g.custom(pick(r, logTypes), addressed)
	}
	if g.open && r.P(1, 6) {
		// behind an interface
		x, v := g.val(depth-1, false)
		l := reflect.MakeSlice(rt[[]interface{}](), 1, 1)
		l.Index(0).Set(x)
		return l, vArr(v)
	}
	switch r.N(5) {
	case 0:
		x, v := g.val(depth-1, true)
		return ptr(x), v
	case 1, 2:
		box := g.nbox
		g.seq++
		g.nbox = g.seq*100 + 1 // the members of a container fail together
		defer func() { g.nbox = box }()
		if box != 0 {
			g.nbox = box
		}
		n := 1 + r.N(3)
		if r.P(1, 2) {
			x, v := g.val(depth-1, false)
			l := reflect.MakeSlice(reflect.SliceOf(x.Type()), 0, 0)
			if r.P(1, 3) {
				l = reflect.MakeMap(reflect.MapOf(rt[string](), x.Type()))
				l.SetMapIndex(reflect.ValueOf("k"), x)
				return l, &V{K: KDict, M: map[string]*V{"k": v}}
			}
			if r.P(1, 3) {
				a := reflect.New(reflect.ArrayOf(1, x.Type())).Elem()
				a.Index(0).Set(x)
				return a, vArr(v)
			}
			return reflect.Append(l, x), vArr(v)
		}
		t := pick(r, logTypes)
		p := r.P(1, 3)
		var xs []reflect.Value
		d := vArr()
		for i := 0; i < n; i++ {
			x, v := g.custom(t, p)
			if p {
				x = ptr(x)
			}
			xs = append(xs, x)
			d.A = append(d.A, v)
		}
		switch r.N(3) {
		case 0:
			return reflect.Append(reflect.MakeSlice(reflect.SliceOf(xs[0].Type()), 0, n), xs...), d
		case 1:
			a := reflect.New(reflect.ArrayOf(n, xs[0].Type())).Elem()
			for i, x := range xs {
				a.Index(i).Set(x)
			}
			return a, d
		}
		m := reflect.MakeMap(reflect.MapOf(rt[string](), xs[0].Type()))
		o := vDict()
		for i, x := range xs {
			k := pick(r, []string{"k", "Name", "名", "a b"}) + strconv.Itoa(i)
			m.SetMapIndex(reflect.ValueOf(k), x)
			o.M[k] = d.A[i]
		}
		return m, o
	default:
		n := 1 + r.N(4)
		var fields []reflect.StructField
		var xs []reflect.Value
		o := vDict()
		for i := 0; i < n; i++ {
			x, v := g.val(depth-1, false)
			k := "f" + strconv.Itoa(g.seq) + "_" + strconv.Itoa(i)
			opt := pick(r, []string{"", "", ",omitempty", ",omitzero", ",allowempty"})
			if r.P(1, 8) {
				// a nil pointer
				fields = append(fields, reflect.StructField{Name: "Z" + strconv.Itoa(i), Type: rt[*LogStruct](), Tag: reflect.StructTag(`json:"z` + k + opt + `"`)})
				xs = append(xs, reflect.Zero(rt[*LogStruct]()))
				if g.all {
					o.M["z"+k] = vNull()
				}
			}
			fields = append(fields, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: x.Type(), Tag: reflect.StructTag(`json:"` + k + opt + `"`)})
			xs = append(xs, x)
			o.M[k] = v
		}
		s := reflect.New(reflect.StructOf(fields)).Elem()
		for i, x := range xs {
			s.Field(i).Set(x)
		}
		return s, o
	}
}

// logSame compares what was read with what was written
func logSame(a, b reflect.Value, path string) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s is a %s", path, b.Type())
	}
	if n, ok := a.Interface().(LogNest); ok {
		m := b.Interface().(LogNest)
		if n.N != m.N || len(n.Inner) != len(m.Inner) || (n.P == nil) != (m.P == nil) {
			return fmt.Sprintf("%s is %+v instead of %+v", path, m, n)
		}
		for i := range n.Inner {
			if d := logSame(reflect.ValueOf(n.Inner[i]), reflect.ValueOf(m.Inner[i]), path+".Inner"); d != "" {
				return d
			}
		}
		if n.P != nil {
			return logSame(reflect.ValueOf(*n.P), reflect.ValueOf(*m.P), path+".P")
		}
		return ""
	}
	if s, ok := logText(a); ok {
		got, _ := logText(b)
		if e := logOf(logTokenOf(s)); e == nil || got != e.want {
			if a.Type() == rt[LogInt]() && s == got {
				return ""
			}
			return fmt.Sprintf("%s holds %q", path, got)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return path + " is nil on one side"
		}
		if a.IsNil() {
			return ""
		}
		return logSame(a.Elem(), b.Elem(), path)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return path + " has another length"
		}
		for i := 0; i < a.Len(); i++ {
			if d := logSame(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return path + " has another length"
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() {
				return path + " lacks " + k.String()
			}
			if d := logSame(a.MapIndex(k), b.MapIndex(k), path+"."+k.String()); d != "" {
				return d
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := logSame(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s is %v instead of %v", path, b, a)
		}
	}
	return ""
}

func (g *logGen) done() {
	for _, t := range g.toks {
		logTab.Delete(t)
	}
}

func (g *logGen) reset() {
	for _, t := range g.toks {
		e := logOf(t)
		e.calls, e.got = 0, nil
	}
}

func c27Case(c *Ctx, i int) {
	r := c.R
	g := &logGen{r: r, all: r.P(1, 3), open: r.P(1, 3), box: map[int64]int{}}
	defer g.done()
	top := r.P(1, 2)
	x, want := g.val(1+r.N(4), top)
	arg := x.Interface()
	if top {
		p := reflect.New(x.Type())
		p.Elem().Set(x)
		arg = p.Interface()
	}
	if len(g.toks) == 0 {
		return
	}
	c.Distinct(x.Type().String(), want.text())
	c.Sample("%s writes %s", x.Type(), clip(want.text(), 300))
	noMethod := map[int64]bool{}
	for _, t := range g.toks {
		e := logOf(t)
		if e.calls == 1 {
			noMethod[t] = true
		}
		e.calls = 0
	}
	marshal, name := J.Marshal, "Marshal"
	if g.all {
		marshal, name = J.MarshalAll, "MarshalAll"
	}
	o := marshal(arg)
	if d := diff(want, observe(o), decode); d != "" {
		c.Fail("%s of a %s gives %s: %s instead of %s", name, x.Type(), clip(o.String(), 1500), d, clip(want.text(), 1500))
	}
	for _, t := range g.toks {
		n := 1
		if noMethod[t] {
			n = 0
		}
		e := logOf(t)
		c.Check(e.calls == n, "MarshalJSON was called %d times by %s for the value that writes %s in %s", e.calls, name, q(e.out), clip(want.text(), 1500))
		c.Check(len(e.got) == 0, "UnmarshalJSON was called by %s", name)
		c.Ev("marshal_calls", e.calls)
	}
	defer c27NoText(c, g, marshal, name, arg, noMethod)
	if g.open {
		return
	}
	// and back, from the document and from its texts
	for k := 0; k < 3; k++ {
		g.reset()
		if k > 0 {
			o = mustParse(c, []string{o.String(), o.PrettyString()}[k-1])
		}
		p := reflect.New(x.Type())
		err := o.Unmarshal(p.Interface())
		c.Check(err == nil, "%s does not unmarshal into a %s: %v", clip(o.String(), 1500), x.Type(), err)
		for _, t := range g.toks {
			e := logOf(t)
			c.Check(len(e.got) == 1, "UnmarshalJSON was called %d times with the text %s of %s", len(e.got), q(e.want), clip(o.String(), 1500))
			c.Ev("unmarshal_calls", 1)
			if !strings.HasPrefix(e.want, "tok") {
				c.Check(e.got[0] == e.want, "UnmarshalJSON was handed %s instead of %s", q(e.got[0]), q(e.want))
			}
			c.Check(json.Valid([]byte(strings.TrimPrefix(e.got[0], "tok"+strconv.FormatInt(t, 10)))), "UnmarshalJSON was handed %s, which is not JSON", q(e.got[0]))
		}
		if d := logSame(x, p.Elem(), "value"); d != "" {
			c.Fail("unmarshalling %s into a %s: %s", clip(o.String(), 1500), x.Type(), d)
		}
	}
	// one that fails
	g.reset()
	bad := pick(r, g.toks)
	logOf(bad).fail = true
	p := reflect.New(x.Type())
	err := o.Unmarshal(p.Interface())
	c.Check(err != nil, "the error of the UnmarshalJSON that was handed %s is not reported", q(logOf(bad).want))
	for _, t := range g.toks {
		e := logOf(t)
		c.Check(len(e.got) <= 1, "UnmarshalJSON was called %d times with the text %s of %s", len(e.got), q(e.want), clip(o.String(), 1500))
		if t == bad {
			continue
		}
		if x.Kind() == reflect.Struct && g.box[t] == 0 {
			c.Check(len(e.got) == 1, "UnmarshalJSON was not called with the text %s as that of another member, %s, failed", q(e.want), q(logOf(bad).want))
			c.Ev("calls_beside_a_failure", 1)
		}
	}
	c.Ev("failures", 1)
}

// c27NoText checks that a MarshalJSON that fails, or that returns no JSON, is
// reported; the only way to do so is a panic
func c27NoText(c *Ctx, g *logGen, marshal func(interface{}) J.JSONObject, name string, arg interface{}, noMethod map[int64]bool) {
	bad := pick(g.r, g.toks)
	if noMethod[bad] {
		return
	}
	g.reset()
	e := logOf(bad)
	if e.out == "" {
		return
	}
	if g.r.P(1, 2) {
		e.noText = true
	} else {
		e.out = pick(g.r, []string{"[1,", "{\"a\":", "\"abc", "[1,{\"b\":2]", "{\"a\" 1}", "[\"x", "[[1]", "{", "["})
	}
	var o J.JSONObject
	reported := func() (r bool) {
		defer func() { r = recover() != nil }()
		o = marshal(arg)
		return
	}()
	c.Check(reported, "%s gives %v although a MarshalJSON failed (%v) or wrote %q", name, o, e.noText, e.out)
	c.Ev("marshal_failures", 1)
	// another call is not disturbed
	o = marshal(map[string]int{"a": 1})
	c.Check(o.String() == "{\"a\":1}", "%s gives %s after a failure", name, o)
}

func init() {
	register(&Prop{
		ID:     "C27",
		Rule:   "random values of types made at run time in which types with their own JSON methods (strings, numbers, structs, lists, maps, embedded, with pointer receivers, using the package themselves) occur as members, elements, map values, behind pointers and interfaces; every call of a method is logged under the value's token; marshalled, unmarshalled from the document and both texts, and once more with one method failing, in either direction; distinct (type, document) pairs count",
		Assume: []string{"tokens drawn from 2^50 do not collide"},
		W:      []Workload{{Name: "methods", N: counts(24000, 800000), Run: c27Case}, {Name: "empty", N: counts(8000, 200000), Run: c27Empty}},
		MinEv:  map[string]int64{"marshal_calls": 25000, "unmarshal_calls": 60000, "failures": 7000, "marshal_failures": 5000, "empty_values": 5000},
	})
}

// values that hold nothing, of types with methods of their own
type (
	NilMap  map[string]int
	NilList []string
	NilFunc func()
	NilChan chan int
	NoField struct{}
	NoText  string
	NoNum   int
	NoBool  bool
	NoArray [0]int
	NoArr2  [2]int
	NilSlot struct{ P *int }
)

var emptyCalls atomic.Int64

func emptyText(s string) ([]byte, error) {
	emptyCalls.Add(1)
	return []byte(`{"empty":"` + s + `"}`), nil
}

func (NilMap) MarshalJSON() ([]byte, error)  { return emptyText("NilMap") }
func (NilList) MarshalJSON() ([]byte, error) { return emptyText("NilList") }
func (NilFunc) MarshalJSON() ([]byte, error) { return emptyText("NilFunc") }
func (NilChan) MarshalJSON() ([]byte, error) { return emptyText("NilChan") }
func (NoField) MarshalJSON() ([]byte, error) { return emptyText("NoField") }
func (NoText) MarshalJSON() ([]byte, error)  { return emptyText("NoText") }
func (NoNum) MarshalJSON() ([]byte, error)   { return emptyText("NoNum") }
func (NoBool) MarshalJSON() ([]byte, error)  { return emptyText("NoBool") }
func (NoArray) MarshalJSON() ([]byte, error) { return emptyText("NoArray") }
func (NoArr2) MarshalJSON() ([]byte, error)  { return emptyText("NoArr2") }
func (NilSlot) MarshalJSON() ([]byte, error) { return emptyText("NilSlot") }

var emptyTypes = []reflect.Type{rt[NilMap](), rt[NilList](), rt[NilFunc](), rt[NilChan](), rt[NoField](), rt[NoText](), rt[NoNum](), rt[NoBool](), rt[NoArray](), rt[NoArr2](), rt[NilSlot]()}

func c27Empty(c *Ctx, i int) {
	r := c.R
	n := int64(0)
	var gen func(depth int) (reflect.Value, *V)
	gen = func(depth int) (reflect.Value, *V) {
		t := emptyTypes[r.N(len(emptyTypes))]
		wrap := func(x reflect.Value, times int) reflect.Value {
			if times > 0 && r.P(1, 3) {
				p := reflect.New(x.Type())
				p.Elem().Set(x)
				return p
			}
			return x
		}
		if depth == 0 || r.P(1, 4) {
			n++
			return wrap(reflect.Zero(t), 1), &V{K: KDict, M: map[string]*V{"empty": vStr(t.Name())}}
		}
		switch r.N(4) {
		case 0:
			var fields []reflect.StructField
			var vals []reflect.Value
			v := vDict()
			for k := 1 + r.N(4); k > 0; k-- {
				x, d := gen(depth - 1)
				name := fmt.Sprintf("f%d", k)
				fields = append(fields, reflect.StructField{Name: strings.ToUpper(name), Type: x.Type(), Tag: reflect.StructTag(`json:"` + name + pick(r, []string{"", ",omitempty", ",omitzero", ",allowempty"}) + `"`)})
				vals = append(vals, x)
				v.M[name] = d
			}
			x := reflect.New(reflect.StructOf(fields)).Elem()
			for k := range vals {
				x.Field(k).Set(vals[k])
			}
			return wrap(x, 1), v
		case 1:
			l, v := []interface{}{}, vArr()
			for k := 1 + r.N(3); k > 0; k-- {
				x, d := gen(depth - 1)
				l, v.A = append(l, x.Interface()), append(v.A, d)
			}
			return reflect.ValueOf(l), v
		case 2:
			m, v := map[string]interface{}{}, vDict()
			for k := 1 + r.N(3); k > 0; k-- {
				x, d := gen(depth - 1)
				name := fmt.Sprintf("k%d", k)
				m[name], v.M[name] = x.Interface(), d
			}
			return reflect.ValueOf(m), v
		default:
			k := 1 + r.N(3)
			x, v := reflect.MakeSlice(reflect.SliceOf(t), k, k), vArr()
			for ; k > 0; k-- {
				n++
				v.A = append(v.A, &V{K: KDict, M: map[string]*V{"empty": vStr(t.Name())}})
			}
			return x, v
		}
	}
	x, want := gen(r.N(4))
	marshal, name := J.Marshal, "Marshal"
	if r.P(1, 3) {
		marshal, name = J.MarshalAll, "MarshalAll"
	}
	emptyLock.Lock()
	before := emptyCalls.Load()
	got := marshal(x.Interface())
	calls := emptyCalls.Load() - before
	emptyLock.Unlock()
	if d := diff(want, observe(got), exact); d != "" {
		c.Fail("%s of a %s gives %s: %s", name, x.Type(), got, d)
	}
	c.Check(calls == n, "%s of a %s with %d values that have their own method calls it %d times", name, x.Type(), n, calls)
	c.Ev("empty_values", int(n))
	c.Distinct("empty", x.Type().String(), want.text())
}

var emptyLock sync.Mutex
