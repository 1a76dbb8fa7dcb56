package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"

	J "yunion.io/x/jsonutils"
)

// C26: results depend on the arguments alone
//
// The same calls on equal arguments are made by several processes: one makes
// them once, in a fixed order, and nothing else; the others make them in other
// orders, several times, between calls that fail, calls whose hooks panic, and
// edits of what other calls were given or have handed out. Every process
// reports what it observed, and the parent compares the reports.

const (
	histPlain     = iota // once, in order
	histPerturbed        // shuffled, repeated, everything in between
	histReversed         // in reverse order, after failures
	histModes
)

type hop struct {
	name string
	f    func(e *renv) string
}

// types of the same name, made in different functions

func sameOne() (interface{}, func() interface{}, string) {
	type Rec struct {
		Name string
		Size int `json:"sz"`
	}
	return Rec{"one", 1}, func() interface{} { return &Rec{} }, `{"name":"n","sz":4,"size":5,"label":"6","tags":["a"]}`
}

func sameTwo() (interface{}, func() interface{}, string) {
	type Rec struct {
		Name string `json:"label,allowempty"`
		Size int    `json:"-"`
	}
	return Rec{"", 2}, func() interface{} { return &Rec{} }, `{"name":"n","sz":4,"size":5,"label":"6"}`
}

func sameThree() (interface{}, func() interface{}, string) {
	type Rec struct {
		Size []string `json:"name"`
		Name int      `json:"size,string"`
	}
	return Rec{[]string{"x"}, 3}, func() interface{} { return &Rec{} }, `{"name":["n"],"sz":4,"size":"5","label":"6"}`
}

func sameFour() (interface{}, func() interface{}, string) {
	type Inner struct {
		Name string
		Size float64 `json:"sz"`
	}
	type Rec struct {
		*Inner
		Label map[string]int
	}
	return Rec{&Inner{"four", 4.5}, nil}, func() interface{} { return &Rec{} }, `{"name":"n","sz":4.25,"size":5,"label":{"a":6}}`
}

func sameFive() (interface{}, func() interface{}, string) {
	type Rec struct {
		Name  string `json:"name" yunion-deprecated-by:"label"`
		Label string `json:"label"`
		Size  int    `json:"size,omitzero"`
	}
	return Rec{"", "five", 0}, func() interface{} { return &Rec{} }, `{"name":"n","sz":4,"size":5}`
}

func sameSix() (interface{}, func() interface{}, string) {
	type Rec struct {
		Label string `json:"name" yunion-deprecated-by:"label"`
		Name  string `json:"label" yunion-deprecated-by:"name"`
		Size  int    `json:"size"`
	}
	return Rec{"six", "", 6}, func() interface{} { return &Rec{} }, `{"label":"n","sz":4,"size":5}`
}

type SameHook struct{ Seen int }

func (h *SameHook) AfterUnmarshal() { h.Seen += 100 }

type SameText struct{ T string }

func (t SameText) MarshalJSON() ([]byte, error) { return json.Marshal("text " + t.T) }

func (t *SameText) UnmarshalJSON(b []byte) error { t.T = string(b); return nil }

// the methods of embedded types become the type's own

func sameSeven() (interface{}, func() interface{}, string) {
	type Rec struct {
		SameHook
		Size int `json:"sz"`
	}
	return Rec{SameHook{1}, 2}, func() interface{} { return &Rec{} }, `{"seen":7,"sz":4}`
}

func sameEight() (interface{}, func() interface{}, string) {
	type Rec struct {
		SameText
		Size int `json:"sz"`
	}
	return Rec{SameText{"x"}, 2}, func() interface{} { return &Rec{} }, `{"t":"y","sz":4}`
}

func sameNine() (interface{}, func() interface{}, string) {
	type Rec string
	return Rec("x"), func() interface{} { return new(Rec) }, `"text"`
}

func sameTen() (interface{}, func() interface{}, string) {
	type Rec []int
	return Rec{1, 2}, func() interface{} { return &Rec{} }, `[4,"5"]`
}

func sameEleven() (interface{}, func() interface{}, string) {
	type Rec map[string]int
	return Rec{"name": 1}, func() interface{} { return &Rec{} }, `{"name":4,"sz":"5"}`
}

func sameTwelve() (interface{}, func() interface{}, string) {
	type Rec struct {
		Seen int
		Size int `json:"sz"`
	}
	return Rec{1, 2}, func() interface{} { return &Rec{} }, `{"seen":7,"sz":4,"t":"y"}`
}

var sameNames = []func() (interface{}, func() interface{}, string){sameOne, sameTwo, sameThree, sameFour, sameFive, sameSix, sameSeven, sameEight, sameNine, sameTen, sameEleven, sameTwelve}

var histTimes = []string{"2020-01-02T03:04:05Z", "2020-01-02T03:04:05.678Z", "2020-01-02 03:04:05", "20200102030405", "2020-01-02T03:04:05+08:00", "2020-01-02T03:04:05-03:30",
	"Thu, 02 Jan 2020 03:04:05 GMT", "Thu, 02 Jan 2020 03:04:05 XYZ", "Thu Jan  2 03:04:05 UTC 2020", "Thu Jan  2 03:04:05 ABC 2020", "02 Jan 20 03:04 MST", "02 Jan 20 03:04 UTC", "2020-01-02", "nonsense", "",
	"2020-01-02T03:04Z", "01/02/2020", "2020-01-02T03:04:05.123456Z", "2020-01-02T03:04:05.123456789+01:00"}

// lenient writes a text without most of the quotes
func (e *renv) lenient(r *Rand) []byte {
	word := func() string {
		w := pick(r, []string{"first", "second", "x1", "yes", "No", "none", "12", "-3.5", "k_e-y", "Word", "a.b"})
		switch r.N(4) {
		case 0:
			return "'" + w + "'"
		case 1:
			return `"` + w + `\t\u0041\x42"`
		}
		return w
	}
	var val func(d int) string
	val = func(d int) string {
		switch {
		case d > 0 && r.P(1, 2):
			l := []string{}
			for i := r.N(4); i >= 0; i-- {
				l = append(l, val(d-1))
			}
			return "[" + strings.Join(l, ",") + "]"
		case d > 0:
			l := []string{}
			for i := r.N(4); i >= 0; i-- {
				l = append(l, pick(r, []string{"name", "x" + strconv.Itoa(i), "k-" + strconv.Itoa(i), "'q'", `"` + strconv.Itoa(i) + `"`})+":"+val(d-1))
			}
			return "{" + strings.Join(l, ", ") + "}"
		}
		return word()
	}
	return []byte(val(3))
}

// texts with node ids, some of them wrong
var histRefs = []string{
	`{"___jnid_":1,"next":<1>}`, `{"___jnid_":1,"next":{"___jnid_":1}}`, `{"next":<1>,"name":[]}`, `{"next":<1>,"name":{"x":[{}]},"n":"bad"}`,
	`{"___jnid_":1,"next":{"next":<1>,"___jnid_":2}}`, `{"next":<9>}`, `{"___jnid_":2,"a":<1>,"b":<2>,"name":"x"}`, `[<1>,<2>,<3>]`, `{"___jnid_":3,"name":<3>}`,
	`{"___jnid_":1,"next":{"___jnid_":2,"next":{"___jnid_":3,"next":<1>}}}`, `{"___jnid_":1,"next":<x>}`,
}

// wrapped puts a value into containers of its type
func (e *renv) wrapped() []interface{} {
	l := reflect.MakeSlice(reflect.SliceOf(e.typ.RT), 2, 2)
	l.Index(0).Set(e.val)
	m := reflect.MakeMap(reflect.MapOf(rt[string](), e.typ.RT))
	m.SetMapIndex(reflect.ValueOf("k"), e.val)
	m.SetMapIndex(reflect.ValueOf("z"), reflect.Zero(e.typ.RT))
	a := reflect.New(reflect.ArrayOf(2, e.typ.RT)).Elem()
	a.Index(1).Set(e.val)
	return []interface{}{l.Interface(), m.Interface(), a.Interface(), e.val.Addr().Interface(), []interface{}{e.val.Interface(), e.val.Addr().Interface()}, reflect.Zero(e.typ.RT).Interface()}
}

// a hook that may panic, fail or succeed, as its content tells

type HistHook struct {
	Mode string
	Note string
	Sub  *HistHook
	L    []HistHook
	Seen int `json:"-"`
}

func (h *HistHook) AfterUnmarshal() {
	if h.Mode == "panic" {
		panic("hook")
	}
	h.Seen++
	h.Note += "/" + h.Mode
}

type HistText struct{ S string }

func (t HistText) MarshalJSON() ([]byte, error) {
	switch t.S {
	case "panic":
		panic("marshaller")
	case "error":
		return nil, fmt.Errorf("no text")
	case "junk":
		return []byte(`{"a":`), nil
	}
	return json.Marshal("<" + t.S + ">")
}

func (t *HistText) UnmarshalJSON(b []byte) error {
	if bytes.Contains(b, []byte("panic")) {
		panic("unmarshaller")
	}
	if bytes.Contains(b, []byte("error")) {
		return fmt.Errorf("no text")
	}
	t.S = string(b)
	return nil
}

type HistBox struct {
	A  string
	T  HistText
	M  map[string]HistText
	L  []HistText
	B  string
	Id *int
}

// hookDocs are documents for the hooked types, by seed
func hookDoc(r *Rand, depth int) *V {
	v := &V{K: KDict, M: map[string]*V{"mode": vStr(pick(r, []string{"a", "b", "c", "panic"})), "note": vStr(pick(r, []string{"x", "y"}))}}
	if depth > 0 && r.P(1, 2) {
		v.M["sub"] = hookDoc(r, depth-1)
	}
	if depth > 0 && r.P(1, 2) {
		v.M["l"] = vArr(hookDoc(r, depth-1), hookDoc(r, depth-1))
	}
	return v
}

func (e *renv) hookRand() *Rand { return newRand("hook", string(e.text)) }

var histOps = func() []rop {
	ops := append([]rop(nil), readers...)
	for i := range sameNames {
		f := sameNames[i]
		ops = append(ops, rop{"samename" + strconv.Itoa(i), func(e *renv) string {
			val, fresh, text := f()
			p, p2 := fresh(), fresh()
			o, _ := J.ParseString(text)
			e1 := o.Unmarshal(p)
			e2 := J.Marshal(val).Unmarshal(p2)
			e3 := J.Update(p, val)
			return J.Marshal(val).String() + J.MarshalAll(val).String() + J.Marshal(map[string]interface{}{"x": val}).String() + show(reflect.ValueOf(p).Elem()) + show(reflect.ValueOf(p2).Elem()) + errText(e1) + errText(e2) + errText(e3)
		}})
	}
	return append(ops,
		rop{"hooks", func(e *renv) string {
			r := e.hookRand()
			s := ""
			for i := 0; i < 3; i++ {
				h := HistHook{}
				var err error
				p := try(func() { err = build(hookDoc(r, 2)).Unmarshal(&h) })
				s += fmt.Sprint(p, errText(err))
				if p == nil {
					s += show(reflect.ValueOf(h))
				}
			}
			return s
		}},
		rop{"marshallers", func(e *renv) string {
			r := e.hookRand()
			s := ""
			for i := 0; i < 3; i++ {
				t := func() HistText {
					return HistText{pick(r, []string{"a", "b", "c", "d", "e", "f", "panic", "error", "junk"})}
				}
				b := HistBox{A: "a", T: t(), M: map[string]HistText{"k": t()}, L: []HistText{t(), t()}, B: "b"}
				p := try(func() { s += J.Marshal(b).String() })
				s += fmt.Sprint(p)
			}
			return s
		}},
		rop{"unmarshallers", func(e *renv) string {
			r := e.hookRand()
			s := ""
			for i := 0; i < 3; i++ {
				t := func() *V { return vStr(pick(r, []string{"a", "b", "c", "d", "e", "f", "panic", "error"})) }
				v := &V{K: KDict, M: map[string]*V{"a": vStr("a"), "t": t(), "m": {K: KDict, M: map[string]*V{"k": t()}}, "l": vArr(t(), t()), "b": vStr("b"), "id": vInt(4)}}
				b := HistBox{}
				var err error
				p := try(func() { err = build(v).Unmarshal(&b) })
				s += fmt.Sprint(p, errText(err))
				if p == nil && err == nil {
					s += show(reflect.ValueOf(b))
				}
			}
			return s
		}},
		rop{"damaged", func(e *renv) string {
			r := e.hookRand()
			s := ""
			for i := 0; i < 4; i++ {
				b := append([]byte(nil), e.text[:r.N(len(e.text)+1)]...)
				if len(b) > 0 && r.P(1, 2) {
					b[r.N(len(b))] = pick(r, []byte(`{}[]",:\<1'`))
				}
				o, err := J.Parse(b)
				l, err2 := J.ParseJsonStreams(b)
				y, err3 := J.ParseYAML(string(b))
				z, err4 := J.ParseQueryString(string(b))
				s += objText(o) + errText(err) + fmt.Sprint(len(l)) + errText(err2) + objText(y) + errText(err3) + objText(z) + errText(err4)
			}
			return s
		}},
		rop{"edits", func(e *renv) string {
			r := e.hookRand()
			o := J.DeepCopy(e.doc)
			s := ""
			for i := 0; i < 6; i++ {
				switch x := o.(type) {
				case *J.JSONDict:
					k := pick(r, e.names)
					switch r.N(6) {
					case 0:
						x.Remove(k)
					case 1:
						x.RemoveIgnoreCase(strings.ToUpper(k))
					case 2:
						x.Set(k, J.NewString("set"))
					case 3:
						s += errText(x.Add(J.NewInt(5), pick(r, e.paths)...))
					case 4:
						if d, ok := J.DeepCopy(e.other).(*J.JSONDict); ok {
							x.Update(d)
						}
					case 5:
						x.UpdateDefault(J.DeepCopy(e.twin))
					}
				case *J.JSONArray:
					if x.Length() > 0 {
						x.SetAt(r.N(x.Length()), J.NewString("set"))
					}
					x.Add(J.JSONNull, J.NewFloat64(2.5))
				}
			}
			return s + o.String()
		}},
		rop{"update", func(e *renv) string {
			p := reflect.New(e.typ.RT)
			err := e.tdoc.Unmarshal(p.Interface())
			err2 := e.tdoc.Unmarshal(p.Interface())
			return show(p.Elem()) + errText(err) + errText(err2)
		}},
		rop{"yaml", func(e *renv) string {
			o, err := J.ParseYAML(e.doc.YAMLString())
			return objText(o) + errText(err) // the order of odd names is not fixed
		}},
		rop{"wrapped", func(e *renv) string {
			s := ""
			for _, x := range e.wrapped() {
				o := J.Marshal(x)
				p := reflect.New(reflect.TypeOf(x))
				err := o.Unmarshal(p.Interface())
				s += o.String() + errText(err)
			}
			return s
		}},
		rop{"wrappedAll", func(e *renv) string {
			s := ""
			for _, x := range e.wrapped() {
				s += J.MarshalAll(x).String()
			}
			return s
		}},
		rop{"times", func(e *renv) string {
			r := e.hookRand()
			s := ""
			for i := 0; i < 6; i++ {
				t, err := J.NewString(pick(r, histTimes)).GetTime()
				s += fmt.Sprint(t, errText(err))
			}
			return s
		}},
		rop{"lenient", func(e *renv) string {
			r := e.hookRand()
			s := ""
			for i := 0; i < 3; i++ {
				o, err := J.Parse(e.lenient(r))
				s += objText(o) + errText(err)
			}
			return s
		}},
		rop{"graphParse", func(e *renv) string {
			o, err := J.ParseString(e.gdoc.String())
			if err != nil {
				return "error"
			}
			x := e.fresh()
			err = o.Unmarshal(x)
			return o.String() + errText(err) + J.Marshal(x).String()
		}},
		rop{"small", func(e *renv) string {
			s := ""
			for _, t := range []string{"{}", "[]", "0", "1", "5", `""`, `"a"`, "1.5", "{a:{},b:[]}", "[[],{}]"} {
				o, err := J.ParseString(t)
				s += objText(o) + errText(err)
			}
			return s
		}},
		rop{"references", func(e *renv) string {
			r := e.hookRand()
			s := ""
			for i := 0; i < 4; i++ {
				o, err := J.ParseString(pick(r, histRefs))
				s += objText(o) + errText(err)
				if err == nil {
					x := GA{}
					err = o.Unmarshal(&x)
					s += errText(err)
				}
			}
			return s
		}},
		rop{"deserialize", func(e *renv) string {
			o, err := J.JSONDeserialize(rt[*SerPoint](), `{"x":1,"y":`+strconv.Itoa(len(e.text))+`}`)
			return show(reflect.ValueOf(o)) + errText(err)
		}},
		rop{"std", func(e *renv) string {
			b, err := json.Marshal(map[string]interface{}{"d": e.doc, "l": []interface{}{e.twin}})
			d := J.NewDict()
			err2 := json.Unmarshal(b, d)
			return string(b) + errText(err) + objText(d) + errText(err2)
		}},
	)
}()

// scribble overwrites a value in place, without following documents
func histScribble(v reflect.Value, depth int) {
	if depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || strings.Contains(v.Type().String(), "jsonutils.") {
			return
		}
		histScribble(v.Elem(), depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			k := v.Elem().Kind()
			if k == reflect.Map || k == reflect.Slice {
				histScribble(v.Elem(), depth+1)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				histScribble(v.Field(i), depth+1)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			histScribble(v.Index(i), depth+1)
		}
		if v.Kind() == reflect.Slice {
			for i := 0; i < v.Len(); i++ {
				if v.Index(i).CanSet() {
					v.Index(i).Set(reflect.Zero(v.Type().Elem()))
				}
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			e := v.MapIndex(k)
			if e.Kind() == reflect.Interface && !e.IsNil() {
				e = e.Elem()
			}
			if e.Kind() == reflect.Map || e.Kind() == reflect.Slice {
				histScribble(e, depth+1)
			}
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
		for i, k := range v.MapKeys() {
			if i%2 == 0 {
				v.SetMapIndex(k, reflect.Value{})
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	default:
		if v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
	}
}

// scribbleDoc edits a document at every level
func histEdit(r *Rand, o J.JSONObject, depth int) {
	if depth > 40 {
		return
	}
	switch x := o.(type) {
	case *J.JSONDict:
		if x == nil {
			return
		}
		for i, k := range x.SortedKeys() {
			y, err := x.Get(k)
			if err == nil {
				histEdit(r, y, depth+1)
			}
			switch (i + depth) % 3 {
			case 0:
				x.Remove(k)
			case 1:
				x.Set(k, J.NewString("scribbled"))
			}
		}
		x.Set("scribbled", J.NewInt(int64(depth)))
		x.Set("a", J.JSONNull)
	case *J.JSONArray:
		if x == nil {
			return
		}
		for i := 0; i < x.Length(); i++ {
			y, _ := x.GetAt(i)
			histEdit(r, y, depth+1)
			if (i+depth)%2 == 0 {
				x.SetAt(i, J.NewString("scribbled"))
			}
		}
		x.Add(J.NewInt(int64(depth)), J.JSONTrue)
	case *J.JSONString, *J.JSONInt, *J.JSONFloat:
		// a scalar is overwritten by unmarshalling into it
		J.NewString("scribbled").Unmarshal(x)
		J.NewInt(-99).Unmarshal(x)
		J.NewFloat64(-99.5).Unmarshal(x)
	}
}

type kept struct {
	what string
	read func() string
	was  string
}

type hist struct {
	c     *Ctx
	r     *Rand
	mode  int
	n     int // environments
	keeps []kept
	ev    map[string]int
	out   *bufio.Writer
	want  string // the key to report in full
}

func (h *hist) env(i int) *renv {
	// four environments of a type each
	typ := h.typ(i / 4)
	return makeEnv(h.c, 700000+h.c.idx*1000+i, typ)
}

func (h *hist) typ(k int) *T {
	r := newRand(h.c.seed, "histtype", h.c.idx, k)
	switch k % 4 {
	case 0:
		return r.renameType(1)
	default:
		return r.structType(&tOpt{depth: 2, strOpt: true}, 2, nil, 0)
	}
}

func (h *hist) keep(what string, read func() string) {
	if len(h.keeps) > 4000 {
		return
	}
	h.keeps = append(h.keeps, kept{what, read, read()})
	h.ev["kept_results"]++
}

// perturb does something that must not matter
func (h *hist) perturb(failuresOnly bool) {
	r := h.r
	h.ev["perturbations"]++
	i := r.N(h.n)
	e := h.env(i)
	k := r.N(23)
	if failuresOnly {
		k = 12 + r.N(11)
	}
	try(func() {
		switch k {
		case 0:
			buf := append([]byte(nil), e.text...)
			o, err := J.Parse(buf)
			if err == nil {
				h.keep("Parse", o.String)
				for i := range buf {
					buf[i] = 'x'
				}
			}
		case 1:
			buf := append([]byte(nil), e.text...)
			if o, err := J.Parse(buf); err == nil {
				histEdit(r, o, 0)
			}
			if l, err := J.ParseJsonStreams(buf); err == nil {
				for _, o := range l {
					histEdit(r, o, 0)
				}
			}
			if o, err := J.ParseString(string(buf)); err == nil {
				histEdit(r, o, 0)
			}
			if o, err := J.JSONDeserialize(J.JSONObjectType, string(buf)); err == nil {
				histEdit(r, o.(J.JSONObject), 0)
			}
			if o, err := J.JSONDeserialize(rt[*SerPoint](), `{"x":1,"y":`+strconv.Itoa(len(e.text))+`}`); err == nil {
				histScribble(reflect.ValueOf(o), 0)
			}
		case 2:
			if o, err := J.ParseQueryString(e.query); err == nil {
				h.keep("ParseQueryString", o.String)
			}
			if o, err := J.ParseQueryString(e.query); err == nil {
				histEdit(r, o, 0)
			}
			if o, err := J.ParseYAML(e.yaml); err == nil {
				h.keep("ParseYAML", o.String)
			}
			if o, err := J.ParseYAML(e.yaml); err == nil {
				histEdit(r, o, 0)
			}
		case 3:
			o := J.MarshalAll(e.val.Interface())
			h.keep("MarshalAll", o.String)
			histEdit(r, J.Marshal(h.env(i).val.Interface()), 0) // documents inside are shared with the value
		case 4:
			p := reflect.New(e.typ.RT)
			e.tdoc.Unmarshal(p.Interface())
			h.keep("Unmarshal", func() string { return show(p.Elem()) })
			e2 := h.env(i)
			p2 := reflect.New(e.typ.RT)
			e2.tdoc.Unmarshal(p2.Interface())
			histScribble(p2.Elem(), 0)
			histScribble(e2.val, 0) // what was marshalled
			// lists behind interfaces are the caller's own
			if _, ok := e.doc.(*J.JSONArray); ok {
				var x interface{}
				e.doc.Unmarshal(&x)
				if l, ok := x.([]J.JSONObject); ok {
					for i := range l {
						l[i] = nil
					}
				}
			}
		case 5:
			o := J.DeepCopy(e.doc)
			h.keep("DeepCopy", o.String)
			histEdit(r, J.DeepCopy(e.doc), 0)
			histEdit(r, e.doc, 0) // what was copied
		case 6:
			x := e.doc.Interface()
			h.keep("Interface", func() string { b, _ := json.Marshal(x); return string(b) })
			y := e.doc.Interface()
			histScribble(reflect.ValueOf(&y).Elem(), 0)
		case 7:
			s := []string{e.doc.String(), e.doc.PrettyString(), e.doc.QueryString(), e.doc.YAMLString()}
			h.keep("texts", func() string { return strings.Join(s, " ") })
			if d, ok := e.doc.(*J.JSONDict); ok {
				k := d.SortedKeys()
				h.keep("SortedKeys", func() string { return strings.Join(k, " ") })
				k2 := d.SortedKeys()
				for i := range k2 {
					k2[i] = "scribbled"
				}
			}
		case 8:
			for _, p := range e.paths {
				if m, err := e.doc.GetMap(p...); err == nil {
					h.keep("GetMap", func() string { return strings.Join(sortedKeys(m), " ") })
				}
				if l, err := e.doc.GetArray(p...); err == nil {
					l2, _ := e.doc.GetArray(p...)
					h.keep("GetArray", func() string {
						s := ""
						for _, o := range l2 {
							s += objText(o)
						}
						return s
					})
					for i := range l {
						l[i] = nil
					}
				}
				if l, err := J.GetStringArray(e.doc, p...); err == nil {
					for i := range l {
						l[i] = "scribbled"
					}
				}
			}
		case 9:
			x := e.fresh()
			e.gdoc.Unmarshal(x)
			s := J.Marshal(x)
			h.keep("graphs", func() string { return s.String() + J.Marshal(x).String() })
			histEdit(r, J.Marshal(e.graph), 0)
		case 10:
			a, ok1 := e.doc.(*J.JSONDict)
			b, ok2 := e.other.(*J.JSONDict)
			if ok1 && ok2 {
				p, q, s, t := J.Diff(a, b)
				h.keep("Diff", func() string { return p.String() + q.String() + s.String() + t.String() })
				x := J.NewDict()
				x.Update(a)
				h.keep("Update", x.String)
				p2, _, _, _ := J.Diff(a, b)
				p2.Set("scribbled", J.JSONTrue)
			}
		case 11:
			// a large document
			o, _ := J.ParseString("[" + strings.Repeat(string(e.text)+",", 1+20000/(1+len(e.text))) + "1]")
			if o != nil {
				s := o.String() + o.PrettyString()
				n := fnv.New64a()
				n.Write([]byte(s))
				h.keep("large", func() string {
					m := fnv.New64a()
					m.Write([]byte(o.String() + o.PrettyString()))
					return fmt.Sprint(m.Sum64())
				})
			}
		case 12:
			for i := 0; i < 5; i++ {
				b := e.text[:r.N(len(e.text)+1)]
				J.Parse(b)
				J.ParseJsonStreams(b)
				J.ParseYAML(string(b))
				J.ParseStream(e.text, r.N(len(e.text)+2))
			}
		case 13:
			J.ParseQueryString(e.query + "&=%zz&a.b.c=1&a=2")
			J.ParseQueryString("%")
			J.ParseQueryString("1=2&5.6=7&0.1=3")
		case 14:
			// a misfit of the type
			p := reflect.New(e.typ.RT)
			e.doc.Unmarshal(p.Interface())
			e.other.Unmarshal(p.Interface())
			J.NewString("text").Unmarshal(p.Interface())
			J.NewArray(e.doc).Unmarshal(p.Interface())
		case 15:
			for _, f := range histOps {
				if f.name == "hooks" || f.name == "marshallers" || f.name == "unmarshallers" {
					safeOp(f.f, e)
				}
			}
		case 16:
			// a panic in the middle of a long text
			try(func() {
				J.Marshal(map[string]interface{}{"a": e.doc, "b": e.graph, "c": HistText{"panic"}, "d": e.val.Interface()})
			})
			try(func() { J.Marshal([]interface{}{e.graph, HistText{"error"}, e.val.Interface()}) })
			try(func() {
				var l []HistHook
				J.NewArray(build(&V{K: KDict, M: map[string]*V{"mode": vStr("ok")}}), build(&V{K: KDict, M: map[string]*V{"mode": vStr("panic")}})).Unmarshal(&l)
			})
			try(func() { e.tdoc.Unmarshal(nil) })
			try(func() { e.tdoc.Unmarshal(5) })
		case 17:
			f, _, text := pick(r, sameNames)()
			p := reflect.New(reflect.TypeOf(f))
			o, _ := J.ParseString(text)
			o.Unmarshal(p.Interface())
			J.Marshal(map[string]interface{}{"x": f})
			o, _ = J.ParseString(`{"size":{"x":1},"name":[1,{}],"label":[[]],"sz":"x"}`)
			o.Unmarshal(p.Interface())
		case 19:
			// texts with node ids that end early or do not fit
			t := e.gdoc.String()
			for i := 0; i < 4; i++ {
				J.ParseString(t[:r.N(len(t)+1)])
				J.ParseJsonStreams([]byte(t[r.N(len(t)+1):]))
				J.ParseString(pick(r, histRefs))
			}
			if o, err := J.ParseString(t + "]}"); err == nil {
				o.Unmarshal(reflect.New(e.typ.RT).Interface())
				try(func() { o.Unmarshal(&HistHook{}) })
			}
		case 20:
			// references to nowhere, in calls that fail or not
			type M struct {
				A, B, C *string
				Next    *GA
				N       int
			}
			for i := 0; i < 4; i++ {
				if o, err := J.ParseString(fmt.Sprintf(`{"a":<%d>,"b":<%d>,"next":<%d>,"n":%s}`, 1+r.N(6), 1+r.N(3), 1+r.N(9), pick(r, []string{"1", `"bad"`}))); err == nil {
					o.Unmarshal(&M{})
				}
				if o, err := J.ParseString(pick(r, histRefs)); err == nil {
					o.Unmarshal(&GA{})
					o.Unmarshal(&M{})
				}
			}
		case 21:
			for i := 0; i < 2; i++ {
				buf := e.lenient(r)
				if o, err := J.Parse(buf); err == nil {
					h.keep("Parse", o.String)
				}
				if l, err := J.ParseJsonStreams(buf); err == nil {
					h.keep("ParseJsonStreams", func() string { return fmt.Sprint(l) })
				}
				for i := range buf {
					buf[i] = 'x'
				}
			}
			for _, x := range e.wrapped() {
				J.MarshalAll(x)
			}
		case 22:
			for i := 0; i < 3; i++ {
				J.NewString(pick(r, histTimes)).GetTime()
				o, err := J.ParseString(pick(r, []string{"{}", "[]", "0", "1", "5", `""`, `"a"`, "1.5", "{a:{},b:[]}", "[[],{}]"}))
				if err == nil {
					histEdit(r, o, 0)
				}
			}
		case 18:
			e.doc.Get("missing", "x")
			e.doc.GetAt(1000)
			e.doc.Int("x", "y")
			J.CheckRequiredFields(e.doc, []string{"m1", "m2"})
			J.JSONDeserialize(rt[*SerPoint](), `{"x":[1]}`)
			J.JSONDeserialize(rt[*SerPoint](), `{"x":`)
			try(func() { J.NewDict().Add(J.JSONNull) })
			try(func() { J.NewArray().SetAt(5, J.JSONNull) })
			d := J.NewDict()
			d.Set("a", J.NewInt(1))
			d.Add(J.JSONTrue, "a", "b")
		default:
			runtime.GC()
		}
	})
}

// histRun is a child: SEED CASE MODE ENVS [WANT]
func histRun(a []string) {
	silence()
	c22Init()
	debug.SetMaxStack(256 << 20)
	seed, _ := strconv.Atoi(a[0])
	idx, _ := strconv.Atoi(a[1])
	h := &hist{ev: map[string]int{}, out: bufio.NewWriter(os.Stdout)}
	h.mode, _ = strconv.Atoi(a[2])
	h.n, _ = strconv.Atoi(a[3])
	if len(a) > 4 {
		h.want = a[4]
	}
	h.r = newRand(seed, "hist", idx, h.mode)
	h.c = &Ctx{R: newRand(seed, "histctx", idx), st: newStats(), seed: seed, idx: idx}
	type call struct{ env, op int }
	var calls []call
	envs := make([]*renv, h.n)
	for i := range envs {
		envs[i] = h.env(i)
		for o := range histOps {
			calls = append(calls, call{i, o})
		}
	}
	switch h.mode {
	case histPerturbed:
		debug.SetGCPercent(30)
		calls = shuffled(h.r, append(calls, calls...))
	case histReversed:
		runtime.GOMAXPROCS(1)
		for i, j := 0, len(calls)-1; i < j; i, j = i+1, j-1 {
			calls[i], calls[j] = calls[j], calls[i]
		}
		for i := 0; i < 30; i++ {
			h.perturb(true)
		}
	}
	for i, cl := range calls {
		if h.mode == histPerturbed && h.r.P(1, 4) {
			h.perturb(false)
		}
		key := fmt.Sprintf("%d:%s:%d", cl.env, histOps[cl.op].name, cl.op)
		s := safeOp(histOps[cl.op].f, envs[cl.env])
		if h.want != "" {
			if key == h.want {
				fmt.Fprintf(h.out, "F %q\n", clip(s, 1500))
			}
			continue
		}
		n := fnv.New64a()
		n.Write([]byte(s))
		fmt.Fprintf(h.out, "R %s %x %d\n", key, n.Sum64(), i)
	}
	for _, k := range h.keeps {
		if s := k.read(); s != k.was && h.want == "" {
			fmt.Fprintf(h.out, "K %s %q\n", k.what, clip("was "+k.was+" and became "+s, 3000))
		}
	}
	for _, k := range sortedKeys(h.ev) {
		if h.want == "" {
			fmt.Fprintf(h.out, "E %s %d\n", k, h.ev[k])
		}
	}
	fmt.Fprintln(h.out, "END")
	h.out.Flush()
	os.Exit(0)
}

func histChild(c *Ctx, args ...string) []string {
	cmd := exec.Command("/proc/self/exe", append([]string{"hist"}, args...)...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	l := strings.Split(strings.TrimSpace(out.String()), "\n")
	if err != nil || l[len(l)-1] != "END" {
		c.Fail("the process of mode %s ended early: %v %s", args[2], err, clip(errb.String(), 3000))
	}
	return l[:len(l)-1]
}

func c26Case(c *Ctx, i int) {
	envs := 16
	args := func(mode int) []string {
		return []string{strconv.Itoa(c.seed), strconv.Itoa(i), strconv.Itoa(mode), strconv.Itoa(envs)}
	}
	names := []string{"alone and in order", "after and between other calls", "in reverse order"}
	want := map[string]string{}
	for mode := 0; mode < histModes; mode++ {
		c.Ev("processes", 1)
		bad := map[string]string{}
		var sig []string
		for _, l := range histChild(c, args(mode)...) {
			f := strings.SplitN(l, " ", 4)
			switch f[0] {
			case "R":
				if mode == histPlain {
					want[f[1]] = f[2]
					c.Ev("calls", 1)
					if len(want)%50 == 0 {
						sig = append(sig, f[2])
					}
					continue
				}
				c.Ev("calls_compared", 1)
				if want[f[1]] != f[2] {
					bad[f[1]] = f[3]
				}
			case "K":
				c.Fail("a result of %s changed later: %s", f[1], strings.Join(f[2:], " "))
			case "E":
				n, _ := strconv.Atoi(f[2])
				c.Ev(f[1], n)
			}
		}
		c.Distinct(append(sig, strconv.Itoa(i), strconv.Itoa(mode))...)
		if len(bad) > 0 {
			keys := make([]string, 0)
			for k := range bad {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			k := keys[0]
			a, b := histChild(c, append(args(histPlain), k)...), histChild(c, append(args(mode), k)...)
			c.Fail("%d calls give something else %s than %s, %s among them (environment:call): %s", len(bad), names[mode], names[0], k, clip(fmt.Sprint(b, " instead of ", a), 5000))
		}
	}
	c.Sample("%d calls on %d environments, first type %s", len(want), envs, (&hist{c: c}).typ(0))
}

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "processes make the same 72 kinds of calls on 16 environments of equal content each (documents, texts, Go values of random types, cyclic graphs): one alone and in order, one shuffled, repeated and between failing calls, panicking hooks, edits of arguments and of earlier results, one in reverse order after failures; results compared by digest, and results kept from perturbing calls read again at the end; distinct (case, process) pairs count",
		Assume: []string{
			"errors are compared by their presence",
			"64-bit digests tell different results apart",
		},
		W:     []Workload{{Name: "histories", N: counts(48, 1200), Run: c26Case}},
		MinEv: map[string]int64{"calls_compared": 60000, "perturbations": 8000, "kept_results": 10000, "processes": 140},
	})
}
