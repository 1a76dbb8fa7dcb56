package main

import (
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"

	J "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/gotypes"
	"yunion.io/x/pkg/tristate"
)

// C16: unmarshalling is total and changes nothing but its target

func init() {
	register(&Prop{
		ID:   "C16",
		Rule: "histories of unmarshalling a pool of documents (fitting, misfitting and random, with and without references) into a pool of fresh and used targets of random and odd types; after every step all documents, the shared constants and all other targets compared with their fingerprints; and fitting documents with one member made to misfit: an error, and every other field filled; distinct (type, document) pairs count",
		Assume: []string{
			"targets are variables (non-nil pointers); types that embed themselves and pointer types to themselves are excluded; a time that cannot be parsed is stored as the zero time by design; targets that share storage by assignment in Go code are not independent",
		},
		W: []Workload{
			{Name: "histories", N: counts(5000, 100000), Run: c16History},
			{Name: "odd-targets", N: counts(60000, 600000), Run: c16Odd},
			{Name: "misfit", N: counts(25000, 400000), Run: c16Misfit},
		},
		MinEv: map[string]int64{"unmarshal_ok": 10000, "unmarshal_error": 10000, "fingerprints_compared": 100000, "misfit_reported": 8000, "fields_filled_beside_misfit": 20000, "odd_target_ok": 2000, "odd_target_error": 5000},
	})
}

var c16Types = &tOpt{depth: 3, strOpt: true, any: true}

func constants() string {
	return J.JSONNull.String() + J.JSONTrue.String() + J.JSONFalse.String() + fmt.Sprint(J.JSONTrue.Value(), J.JSONFalse.Value())
}

const wantConstants = "nulltruefalsetrue false"

// refDoc parses a text with node ids and references
func (r *Rand) refDoc() J.JSONObject {
	var gen func(d int) string
	gen = func(d int) string {
		if d <= 0 || r.P(1, 4) {
			return pick(r, []string{"<1>", "<2>", "<3>", "<9>", "1", "\"x\"", "null", "true", "1.5", "[]", "{}"})
		}
		if r.P(1, 3) {
			s := []string{}
			for i := r.N(4); i > 0; i-- {
				s = append(s, gen(d-1))
			}
			return "[" + strings.Join(s, ",") + "]"
		}
		m := []string{}
		if r.P(1, 2) {
			m = append(m, fmt.Sprintf("\"___jnid_\":%d", 1+r.N(100)))
		}
		for i := r.N(4); i > 0; i-- {
			m = append(m, fmt.Sprintf("%q:%s", pick(r, []string{"name", "size", "host", "next", "kids", "by_name", "left", "x", "alpha", "id", "any"}), gen(d-1)))
		}
		return "{" + strings.Join(m, ",") + "}"
	}
	for k := 0; k < 8; k++ {
		txt := gen(3)
		for i := 1; i <= 3; i++ {
			txt = strings.Replace(txt, "\"___jnid_\":", fmt.Sprintf("\"___jnid_\" :%d,\"o\":", i), 1)
		}
		txt = strings.ReplaceAll(txt, "\"___jnid_\":", "\"n\":")
		if o, err := J.ParseString(txt); err == nil {
			return o
		}
	}
	return J.NewDict()
}

type c16doc struct {
	o  J.JSONObject
	fp string
}

func docPrint(o J.JSONObject) string { return o.String() + observe(o).text() }

type c16target struct {
	t  *T
	v  reflect.Value
	fp string
}

func c16History(c *Ctx, i int) {
	r := c.R
	pool := 600
	if c.tier {
		pool = 8000
	}
	var types []*T
	for k := 0; k < 1+r.N(3); k++ {
		types = append(types, poolType(c, "c16", (i*7+k*13)%pool, c16Types))
	}
	var docs []*c16doc
	newDoc := func() {
		var o J.JSONObject
		if r.P(1, 8) {
			o = r.refDoc()
		} else {
			d := r.docFor(pick(r, types), pick(r, []int{0, 0, 1, 2, 10, 20}))
			o = buildVia(r, d)
			if !hasNaN(d) && r.P(1, 3) {
				if p, err := J.ParseString(o.String()); err == nil {
					o = p
				}
			}
		}
		docs = append(docs, &c16doc{o, docPrint(o)})
	}
	for k := 0; k < 3; k++ {
		newDoc()
	}
	var targets []*c16target
	steps := 4 + r.N(8)
	for s := 0; s < steps; s++ {
		if r.P(1, 6) {
			newDoc()
		}
		var tg *c16target
		if len(targets) > 0 && r.P(1, 2) {
			tg = pick(r, targets)
		} else {
			tg = &c16target{t: pick(r, types)}
			if r.P(1, 8) {
				tg.t = docObj
			}
			if r.P(1, 12) {
				tg.t = pick(r, append(append([]*T{}, docPtrs...), docVals...))
			}
			if r.P(1, 10) {
				tg.t = sliceOf(tg.t)
			}
			tg.v = reflect.New(tg.t.RT)
			if r.P(1, 4) {
				r.val(tg.t, (&vOpt{str: sAny, fill: 7}).large(r, 100), tg.v.Elem(), true)
			}
			targets = append(targets, tg)
		}
		d := pick(r, docs)
		var keys []string
		want := d.o
		if dd, ok := d.o.(*J.JSONDict); ok && r.P(1, 6) {
			ks := dd.SortedKeys()
			if len(ks) > 0 {
				keys = []string{pick(r, ks)}
				want, _ = dd.Get(keys[0])
			}
		}
		c.Note("step %d: Unmarshal %s keys %q into %s = %s", s, d.o.String(), keys, tg.t, show(tg.v.Elem()))
		var err error
		if p := try(func() { err = d.o.Unmarshal(tg.v.Interface(), keys...) }); p != nil {
			c.Fail("Unmarshal %s keys %q into a target of type %s panics: %v", clip(d.o.String(), 2000), keys, tg.t, p)
		}
		if err == nil {
			c.Ev("unmarshal_ok", 1)
		} else {
			c.Ev("unmarshal_error", 1)
			if try(func() { _ = err.Error() }) != nil {
				c.Fail("the error of Unmarshal cannot be printed")
			}
		}
		_ = want
		for k, x := range docs {
			if got := docPrint(x.o); got != x.fp {
				c.Fail("step %d: unmarshalling %s into %s changed document %d: %s, was %s", s, clip(d.o.String(), 1500), tg.t, k, clip(got, 1500), clip(x.fp, 1500))
			}
		}
		c.Check(constants() == wantConstants, "step %d: unmarshalling %s into %s changed the constants: %s", s, clip(d.o.String(), 1500), tg.t, constants())
		for k, x := range targets {
			got := ""
			if p := try(func() { got = show(x.v.Elem()) }); p != nil {
				c.Fail("step %d: after unmarshalling %s, target %d of type %s cannot be read: %v", s, clip(d.o.String(), 1500), k, x.t, p)
			}
			if x == tg {
				x.fp = got
			} else if got != x.fp {
				c.Fail("step %d: unmarshalling %s into %s changed another target of type %s: %s, was %s", s, clip(d.o.String(), 1000), tg.t, x.t, clip(got, 1500), clip(x.fp, 1500))
			}
		}
		c.Ev("fingerprints_compared", len(docs)+len(targets))
		c.Distinct(tg.t.RT.String(), d.fp, join(keys))
		// an edit of the target's own lists and maps must not reach the others
		if r.P(1, 3) {
			scribble(r, tg.v.Elem(), 0)
			tg.fp = show(tg.v.Elem())
			for k, x := range docs {
				if got := docPrint(x.o); got != x.fp {
					c.Fail("step %d: writing into the target %s changed document %d: %s, was %s", s, tg.t, k, clip(got, 1500), clip(x.fp, 1500))
				}
			}
			for _, x := range targets {
				if x != tg && show(x.v.Elem()) != x.fp {
					c.Fail("step %d: writing into the target %s changed another target of type %s: %s, was %s", s, tg.t, x.t, clip(show(x.v.Elem()), 1500), clip(x.fp, 1500))
				}
			}
			c.Ev("scribbled", 1)
		}
	}
	c.Sample("%d steps over types %s", steps, clip(types[0].String(), 200))
}

// scribble overwrites scalars reachable through lists, maps, pointers and
// structs of a target. Documents that a target shares with the source by
// design (pointers) are left alone; those it holds as values are edited.
func scribble(r *Rand, v reflect.Value, depth int) {
	if depth > 12 {
		return
	}
	if v.CanAddr() && v.CanInterface() {
		switch x := v.Addr().Interface().(type) {
		case *J.JSONDict:
			x.Set("scribble", J.NewInt(1))
			for _, k := range x.SortedKeys() {
				if r.P(1, 2) {
					x.Set(k, J.NewString("scribble"))
				}
			}
			return
		case *J.JSONArray:
			for i := 0; i < x.Length(); i++ {
				x.SetAt(i, J.NewString("scribble"))
			}
			x.Add(J.JSONNull)
			return
		case *J.JSONObject, *time.Time, *tristate.TriState:
			return
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 5)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "!")
		}
	case reflect.Slice, reflect.Array:
		if v.Type() == rt[json.RawMessage]() {
			for i := 0; i < v.Len(); i++ {
				v.Index(i).SetUint(' ')
			}
			return
		}
		if v.Kind() == reflect.Slice && v.Type().Elem() == rt[J.JSONObject]() {
			for i := 0; i < v.Len(); i++ {
				v.Index(i).Set(reflect.ValueOf(J.NewString("scribble")))
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			scribble(r, v.Index(i), depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			x := reflect.New(v.Type().Elem()).Elem()
			x.Set(v.MapIndex(k))
			scribble(r, x, depth+1)
			v.SetMapIndex(k, x)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			if _, ok := v.Interface().(J.JSONObject); ok {
				return
			}
			scribble(r, v.Elem(), depth+1)
		}
	case reflect.Interface:
		if !v.IsNil() {
			e := v.Elem()
			if e.Kind() == reflect.Slice {
				scribble(r, e, depth+1)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scribble(r, v.Field(i), depth+1)
			}
		}
	}
}

// odd targets

type C16Stringer interface{ String() string }
type C16Odd struct {
	Name   string
	Err    error
	R      io.Reader
	Ch     chan int
	Fn     func()
	C      complex128
	IntMap map[int]string
	AnyKey map[interface{}]int
	Str    C16Stringer
	Ser    gotypes.ISerializable
	JO     J.JSONObject
	PJO    *J.JSONObject
	PPS    **string
	A0     [0]int
	A2     [2]C16Leaf
	U      json.Unmarshaler
	Size   int
	hidden int
	X      interface{}
	PX     *interface{}
	Id     []**int
	Next   *C16Odd
	Kids   []*C16Odd
	ByName map[string]C16Odd
	Left   map[string]*C16Odd
	Alpha  []interface{}
	Host   map[string]interface{}
	Any    struct {
		J.JSONObject
		T *tristate.TriState
	}
}

type C16Leaf struct {
	A *int
	B []bool
}

type C16Iface struct {
	fmt.Stringer
	Name string
}

type C16Hook struct {
	Name string
	Size int
	N    int `json:"-"`
}

func (h *C16Hook) AfterUnmarshal() { h.N++ }

// C16Bad fails in its own method
type C16Bad struct{ X int }

func (b *C16Bad) UnmarshalJSON(data []byte) error { return fmt.Errorf("bad: %d bytes", len(data)) }

type C16Panics struct{ Name map[string]C16Bad }

func oddTargets() []func() interface{} {
	five := 5
	return []func() interface{}{
		func() interface{} { return new(C16Odd) },
		func() interface{} {
			return &C16Odd{Err: fmt.Errorf("e"), R: strings.NewReader("x"), Str: J.NewString("s"), X: &five, IntMap: map[int]string{1: "x"}, JO: J.JSONTrue, Next: &C16Odd{}, U: &C16Bad{}}
		},
		func() interface{} { return new(C16Iface) },
		func() interface{} { return &C16Iface{Stringer: J.NewString("x")} },
		func() interface{} { return &C16Iface{Stringer: time.Second} },
		func() interface{} { return new(C16Hook) },
		func() interface{} { return new(C16Bad) },
		func() interface{} { return new(C16Panics) },
		func() interface{} { return new(chan int) },
		func() interface{} { return new(func()) },
		func() interface{} { return new(complex128) },
		func() interface{} { return new(map[int]string) },
		func() interface{} { return new(map[interface{}]interface{}) },
		func() interface{} { return new(map[string]interface{}) },
		func() interface{} { return new(interface{}) },
		func() interface{} { var x interface{} = "old"; return &x },
		func() interface{} { var x interface{} = map[string]interface{}{"a": 1}; return &x },
		func() interface{} { var x interface{} = new(int); return &x },
		func() interface{} { y := new(int); var x interface{} = &y; return &x },
		func() interface{} { y := new(C16Odd); var x interface{} = &y; return &x },
		func() interface{} { return new(error) },
		func() interface{} { return new(io.Reader) },
		func() interface{} { return new(gotypes.ISerializable) },
		func() interface{} { return new(J.JSONObject) },
		func() interface{} { var x J.JSONObject = J.NewDict(); return &x },
		func() interface{} { return new(*J.JSONObject) },
		func() interface{} { return new(**J.JSONDict) },
		func() interface{} { return J.NewDict() },
		func() interface{} { return J.NewArray() },
		func() interface{} { return J.NewInt(3) },
		func() interface{} { return J.NewFloat64(3) },
		func() interface{} { return J.NewFloat32(3) },
		func() interface{} { return J.NewString("s") },
		func() interface{} { b := J.NewBool(true); c := *b; return &c },
		func() interface{} { return new(J.JSONValue) },
		func() interface{} { return new(J.JSONPair) },
		func() interface{} { return new([]J.JSONValue) },
		func() interface{} { return new([]J.JSONDict) },
		func() interface{} { return new(map[string]J.JSONArray) },
		func() interface{} { return new(map[string]J.JSONObject) },
		func() interface{} { return new([][]int) },
		func() interface{} { x := make([]int, 1, 5); return &x },
		func() interface{} { return make(map[string]string) },
		func() interface{} { return make(map[string]interface{}) },
		func() interface{} { return new([3]int) },
		func() interface{} { return new([0]int) },
		func() interface{} { return new([]byte) },
		func() interface{} { return new(json.RawMessage) },
		func() interface{} { return new(json.Number) },
		func() interface{} { return new(json.Unmarshaler) },
		func() interface{} { return new(time.Time) },
		func() interface{} { return new(*time.Time) },
		func() interface{} { return new(time.Duration) },
		func() interface{} { return new(time.Month) },
		func() interface{} { return new(tristate.TriState) },
		func() interface{} { return new(*tristate.TriState) },
		func() interface{} { return new(StdPoint) },
		func() interface{} { return new([]StdName) },
		func() interface{} { return new(map[string]*StdNum) },
		func() interface{} { return new(struct{}) },
		func() interface{} { return new(uintptr) },
		func() interface{} { return new(NKey) },
		func() interface{} { return new(map[NKey]NMap) },
		func() interface{} { return new(reflect.Value) },
		func() interface{} { return new(C13Tree) },
		func() interface{} { return new(struct{ hidden, name string }) },
		func() interface{} {
			return new(struct {
				A, B string `json:"x"`
				C    int    `json:"x"`
			})
		},
	}
}

var oddList = oddTargets()

func c16Odd(c *Ctx, i int) {
	r := c.R
	mk := oddList[i%len(oddList)]
	target := mk()
	var o J.JSONObject
	switch r.N(4) {
	case 0:
		o = r.refDoc()
	case 1:
		g := genOpt{maxSize: 12, depth: 3, nan: r.P(1, 8), f32: true}
		o = buildVia(r, r.doc(g))
	default:
		// names of the odd types
		names := []string{"name", "err", "r", "ch", "fn", "c", "int_map", "any_key", "str", "ser", "jo", "pjo", "pps", "a0", "a2", "u", "size", "x", "px", "id", "next", "kids", "by_name", "left", "alpha", "host", "any", "Name", "hidden", "Stringer", "stringer", "Stringer", "stringer", "a", "b", "t", "JSONObject", "json_object", "", "N"}
		var gen func(d int) *V
		gen = func(d int) *V {
			g := genOpt{maxSize: 4, depth: 1}
			if d <= 0 || r.P(1, 3) {
				return r.scalar(&g)
			}
			if r.P(1, 4) {
				ret := vArr()
				for i := r.N(4); i > 0; i-- {
					ret.A = append(ret.A, gen(d-1))
				}
				return ret
			}
			ret := vDict()
			for i := r.N(8); i > 0; i-- {
				ret.M[pick(r, names)] = gen(d - 1)
			}
			return ret
		}
		o = build(gen(3))
	}
	before := docPrint(o)
	c.Note("Unmarshal %s into %T", o.String(), target)
	var err error
	if p := try(func() { err = o.Unmarshal(target) }); p != nil {
		c.Fail("Unmarshal %s into %T panics: %v", clip(o.String(), 3000), target, p)
	}
	if err == nil {
		c.Ev("odd_target_ok", 1)
	} else {
		c.Ev("odd_target_error", 1)
	}
	if got := docPrint(o); got != before {
		c.Fail("unmarshalling into %T changed the document: %s, was %s", target, clip(got, 2000), clip(before, 2000))
	}
	c.Check(constants() == wantConstants, "unmarshalling %s into %T changed the constants", clip(o.String(), 2000), target)
	if h, ok := target.(*C16Hook); ok {
		want := 0
		if _, isDict := o.(*J.JSONDict); isDict {
			want = 1
		}
		c.Check(h.N == want, "the hook ran %d times for %s", h.N, clip(o.String(), 500))
	}
	c.Distinct(fmt.Sprintf("%T", target), before)
}

var c16MisTypes = &tOpt{depth: 2, noArray: false}

// c16Misfit: one member does not fit, all other fields are filled
func c16Misfit(c *Ctx, i int) {
	r := c.R
	pool := 800
	if c.tier {
		pool = 8000
	}
	t := poolType(c, "c16m", i%pool, c16MisTypes)
	if t.K != tStruct {
		return
	}
	v2 := reflect.New(t.RT).Elem()
	r.val(t, &vOpt{str: sAny, fill: 8, noNilElem: true}, v2, false)
	d := resolve(refMarshal(t, v2, nil, false))
	// choose the place: a member of the struct or of a nested one
	cur, ct := d, t
	var path []string
	for {
		var names []string
		for _, k := range cur.keys() {
			f, _ := ct.field(k)
			if r.misfit(f.f.T) != nil {
				names = append(names, k)
			}
		}
		if len(names) == 0 {
			return
		}
		k := pick(r, names)
		path = append(path, k)
		f, _ := ct.field(k)
		n := f.f.T
		for n.K == tPtr {
			n = n.Elem
		}
		if n.K == tStruct && cur.M[k].K == KDict && len(cur.M[k].M) > 0 && r.P(2, 3) {
			cur, ct = cur.M[k], n
			continue
		}
		cur.M[k] = r.misfit(f.f.T)
		break
	}
	o := build(d)
	target := reflect.New(t.RT)
	c.Note("misfit at %q in %s of %s", path, o.String(), t)
	err := o.Unmarshal(target.Interface())
	if err == nil {
		c.Fail("no error for the misfit at %q: %s into %s gives %s", path, clip(o.String(), 2000), t, clip(show(target.Elem()), 2000))
	}
	c.Ev("misfit_reported", 1)
	// the others
	checkBeside(c, t, target.Elem(), d, path, o, "$")
	c.Distinct(t.RT.String(), o.String())
}

func checkBeside(c *Ctx, t *T, got reflect.Value, d *V, path []string, o J.JSONObject, where string) {
	for _, k := range d.keys() {
		f, _ := t.field(k)
		fv, ok := at(got, f.path, false)
		if k == path[0] {
			if len(path) > 1 {
				n := f.f.T
				for n.K == tPtr {
					n = n.Elem
					if !ok || fv.IsNil() {
						c.Fail("%s.%s is not filled although only a member of it misfits: %s", where, k, clip(o.String(), 1500))
					}
					fv = fv.Elem()
				}
				checkBeside(c, n, fv, d.M[k], path[1:], memberOf(o, k), where+"."+k)
			}
			continue
		}
		want := reflect.New(f.f.T.RT).Elem()
		refApply(f.f.T, want, d.M[k], memberOf(o, k))
		if !ok {
			if !zeroish(f.f.T, want) {
				c.Fail("%s.%s is not filled beside the misfit at %q: %s", where, k, path, clip(o.String(), 1500))
			}
			continue
		}
		if dd := eqVal(f.f.T, want, fv, nil, where+"."+k); dd != "" {
			c.Fail("beside the misfit at %q: %s\ntype %s\ndocument %s", path, dd, t, clip(o.String(), 2000))
		}
		c.Ev("fields_filled_beside_misfit", 1)
	}
}
