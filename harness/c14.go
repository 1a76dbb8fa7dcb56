package main

import (
	"fmt"
	"math"
	"reflect"
	"time"

	J "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

// C14: marshalled members follow the field options, deterministically

func init() {
	register(&Prop{
		ID:   "C14",
		Rule: "random struct types and values marshalled with and without omission; the members compared with a model of the options that is computed from the type description; every combination of options for every kind of field at empty, zero and other values; marshalled again, and an equal value with maps filled in another order, for identical text; distinct (type, text) pairs count",
		Assume: []string{
			"unsigned integers above the signed range only with the string option (K1); embedded pointers are set; documents held as values are not zero, documents held by pointer not empty; the string option is on booleans, numbers, strings, lists, maps and structs",
		},
		W: []Workload{
			twinsWorkload(),
			{Name: "options", N: fixed(32 * 18 * 8), Run: c14Options},
			{Name: "random", N: counts(60000, 600000), Run: c14Random},
			{Name: "static", N: counts(2000, 20000), Run: c14Static},
			{Name: "maps", N: counts(5000, 80000), Run: c14Maps},
		},
		MinEv: map[string]int64{"marshal": 20000, "marshal_all": 20000, "field_written": 100000, "field_left_out": 30000, "written_as_string": 5000, "same_text_again": 20000},
		Probe: map[string]func() (bool, string){"K1": probeK1},
	})
}

func probeK1() (bool, string) {
	v := struct{ N uint64 }{math.MaxUint64}
	s := J.Marshal(v).String()
	return s != `{"n":18446744073709551615}`, "Marshal struct{N uint64}{18446744073709551615} gives " + s
}

var c14Types = &tOpt{depth: 3, strOpt: true, strAll: true, any: true}

func checkMarshal(c *Ctx, t *T, v reflect.Value, omit bool) {
	f := J.Marshal
	name := "Marshal"
	if !omit {
		f, name = J.MarshalAll, "MarshalAll"
	}
	fp := show(v)
	arg := v.Interface()
	if c.R.P(1, 3) && v.CanAddr() && v.Kind() != reflect.Ptr && t.K != tTime && t.K != tAny {
		arg = v.Addr().Interface()
	}
	doc := f(arg)
	ref := refMarshal(t, v, nil, omit)
	if ref == nil {
		ref = vNull()
	}
	got := observe(doc)
	c.Note("%s %s = %s", name, fp, doc.String())
	if d := diffRef(ref, got, "$"); d != "" {
		c.Fail("%s: %s\ntype %s\nvalue %s\ndocument %s", name, d, t, clip(fp, 2000), clip(doc.String(), 2000))
	}
	again := f(arg).String()
	if again != doc.String() {
		c.Fail("%s: marshalling again gives %s, was %s", name, clip(again, 1500), clip(doc.String(), 1500))
	}
	c.Check(show(v) == fp, "%s changed the value: %s, was %s", name, clip(show(v), 1500), clip(fp, 1500))
	c.Ev("same_text_again", 1)
	if omit {
		c.Ev("marshal", 1)
	} else {
		c.Ev("marshal_all", 1)
	}
	countFields(c, t, v, omit)
	c.Distinct(name, t.RT.String(), doc.String())
}

func countFields(c *Ctx, t *T, v reflect.Value, omit bool) {
	if t.K != tStruct {
		return
	}
	for _, ff := range t.flat() {
		if ff.f.Ignore {
			continue
		}
		fv, ok := at(v, ff.path, false)
		if !ok {
			continue
		}
		x := refMarshal(ff.f.T, fv, &ff.f.fopts, omit)
		if x == nil {
			c.Ev("field_left_out", 1)
		} else {
			c.Ev("field_written", 1)
			if ff.f.str {
				c.Ev("written_as_string", 1)
			}
		}
	}
}

func c14Random(c *Ctx, i int) {
	pool := 1500
	if c.tier {
		pool = 12000
	}
	t := poolType(c, "c14", i%pool, c14Types)
	r := c.R
	omit := r.P(1, 2)
	v := reflect.New(t.RT).Elem()
	r.val(t, (&vOpt{str: sAny, fill: 3 + r.N(7), noNilElem: omit && r.P(1, 2), noBigUint: true, noEmptyDoc: omit, embPtr: true, anyTyped: true}).large(r, 60), v, r.P(1, 2))
	checkMarshal(c, t, v, omit)
	c.Sample("%s of type %s", clip(J.Marshal(v.Interface()).String(), 200), clip(t.String(), 250))
}

// c14Options goes through all options for all kinds of fields
func c14Options(c *Ctx, i int) {
	opt, kind, value := i%32, i/32%18, i/(32*18)
	r := c.R
	var e *T
	str := &T{K: tStr, RT: rt[string]()}
	num := &T{K: tInt, RT: rt[int]()}
	switch kind {
	case 0:
		e = pick(r, leaves[:2])
	case 1:
		e = pick(r, leaves[2:11])
	case 2:
		e = pick(r, leaves[11:18])
	case 3:
		e = &T{K: tF32, RT: rt[float32]()}
	case 4:
		e = &T{K: tF64, RT: rt[float64]()}
	case 5:
		e = str
	case 6:
		e = timeType
	case 7:
		e = triType
	case 8:
		e = sliceOf(pick(r, []*T{str, num}))
	case 9:
		e = mapOf(r, pick(r, []*T{str, num}))
	case 10:
		f := &Fld{Go: "In", Name: "in", Snake: "in", fopts: fopts{omitEmpty: true}, T: str}
		e = &T{K: tStruct, F: []*Fld{f}, RT: reflect.StructOf([]reflect.StructField{{Name: "In", Type: str.RT}})}
	case 11:
		e = ptrTo(pick(r, []*T{str, num, sliceOf(num), leaves[0], mapOf(r, num)}))
	case 12:
		e = docObj
	case 13:
		e = arrayOf(num, r.N(3))
	case 14:
		e = anyType
	case 15:
		e = pick(r, docVals)
	case 16:
		e = pick(r, docPtrs)
	default:
		e = ptrTo(ptrTo(pick(r, []*T{str, num, leaves[0], {K: tF64, RT: rt[float64]()}})))
	}
	f := &Fld{Go: "Field", Name: "field", Snake: "field", T: e, fopts: fopts{omitEmpty: true}}
	var opts []string
	switch opt % 4 {
	case 1:
		opts, f.omitEmpty = append(opts, "allowempty"), false
	case 2:
		opts = append(opts, "omitempty")
	case 3:
		opts = append(opts, "ALLOWEMPTY")
		f.omitEmpty = false
	}
	if opt&4 != 0 {
		opts, f.omitZero = append(opts, "omitzero"), true
	}
	if opt&8 != 0 {
		opts, f.omitFalse = append(opts, "omitfalse"), true
	}
	base := e
	for base.K == tPtr {
		base = base.Elem
	}
	if opt&16 != 0 && (base.K <= tStr || base.K == tSlice || base.K == tArray || base.K == tMap || base.K == tStruct) {
		opts, f.str = append(opts, "string"), true
	}
	for _, o := range shuffled(r, opts) {
		f.Tag += "," + o
	}
	if f.Tag != "" {
		f.Tag = fmt.Sprintf(`json:"%s"`, f.Tag)
	}
	other := &Fld{Go: "Other", Name: "other", Snake: "other", T: num, fopts: fopts{omitEmpty: true}}
	t := &T{K: tStruct, F: []*Fld{f, other}, RT: reflect.StructOf([]reflect.StructField{
		{Name: "Field", Type: e.RT, Tag: reflect.StructTag(f.Tag)}, {Name: "Other", Type: num.RT}})}
	v := reflect.New(t.RT).Elem()
	fv := v.Field(0)
	switch value {
	case 0: // zero
	case 1, 2: // empty behind pointers and in containers
		switch e.K {
		case tSlice:
			fv.Set(reflect.MakeSlice(e.RT, 0, 3))
		case tMap:
			fv.Set(reflect.MakeMap(e.RT))
		case tPtr:
			fv.Set(reflect.New(e.Elem.RT))
			if e.Elem.K == tPtr && value == 2 {
				fv.Elem().Set(reflect.New(e.Elem.Elem.RT))
			}
		}
	default:
		r.val(e, &vOpt{str: sAny, fill: 10, noNilElem: true, noBigUint: true, noEmptyDoc: true, anyTyped: true}, fv, true)
	}
	// whether a zero document number counts as empty is not judged
	if e.K != tDocVal || e.Doc == KStr || e.Doc == KArr || e.Doc == KDict || !f.omitEmpty || value > 2 {
		checkMarshal(c, t, v, true)
	}
	checkMarshal(c, t, v, false)
}

type C14Emb struct {
	Common string
	Prefix string `yunion-ambiguous-prefix:"emb_"`
}

type C14Static struct {
	C14Emb
	ID        string `json:"uuid,omitempty"`
	Named     string `name:"given_name"`
	Both      string `json:"from_json" name:"from_name"`
	private   string
	Ignored   string `json:"-"`
	Dash      string `json:"-,"`
	CamelCase string
	Empty     string `json:"empty,allowempty"`
	Zero      int    `json:",omitzero"`
	False     bool   `json:"false,omitfalse"`
	Tri       tristate.TriState
	T         time.Time  `json:"t"`
	TA        time.Time  `json:"ta,allowempty"`
	PT        *time.Time `json:"pt"`
	S64       uint64     `json:"s64,string"`
	S64Z      uint64     `json:"s64z,string,omitzero"`
	Any       interface{}
	Bytes     []byte
	Fn        map[string]interface{}
}

// c14Static checks names and options on a type with features that generated
// types cannot have
func c14Static(c *Ctx, i int) {
	r := c.R
	v := C14Static{private: "p", Ignored: "i"}
	want := vDict()
	set := func(k string, x *V) { want.M[k] = x }
	s := func(p *string, k string, always bool) {
		if r.P(1, 2) {
			*p = r.str(sAny)
		}
		if *p != "" || always {
			set(k, vStr(*p))
		}
	}
	s(&v.Common, "common", false)
	s(&v.Prefix, "prefix", false)
	s(&v.ID, "uuid", false)
	s(&v.Named, "given_name", false)
	s(&v.Both, "from_name", false)
	s(&v.Dash, "-", false)
	s(&v.CamelCase, "camel_case", false)
	s(&v.Empty, "empty", true)
	if r.P(1, 2) {
		v.Zero = int(r.int64v())
	}
	if v.Zero != 0 {
		set("zero", vInt(int64(v.Zero)))
	}
	if r.P(1, 2) {
		v.False = true
		set("false", vBool(true))
	}
	switch r.N(3) {
	case 0:
		v.Tri = tristate.True
		set("tri", vBool(true))
	case 1:
		v.Tri = tristate.False
		set("tri", vBool(false))
	}
	tm := func() *V { return vStr("") }
	set("ta", tm())
	if r.P(1, 2) {
		v.T = r.timeVal()
		if !v.T.IsZero() {
			set("t", &V{K: KStr, S: "\x00time", I: v.T.UnixMicro()})
		}
		v.TA = v.T
		if !v.TA.IsZero() {
			set("ta", &V{K: KStr, S: "\x00time", I: v.T.UnixMicro()})
		}
		v.PT = &v.T
		set("pt", &V{K: KStr, S: "\x00time", I: v.T.UnixMicro()})
	}
	v.S64 = pick(r, []uint64{0, 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, r.Uint64()})
	set("s64", vStr(fmt.Sprint(v.S64)))
	v.S64Z = pick(r, []uint64{0, 1, math.MaxUint64, r.Uint64()})
	if v.S64Z != 0 {
		set("s64z", vStr(fmt.Sprint(v.S64Z)))
	}
	switch r.N(5) {
	case 0:
		v.Any = int8(-5)
		set("any", vInt(-5))
	case 1:
		v.Any = []string{"a", ""}
		set("any", vArr(vStr("a"), vStr("")))
	case 2:
		v.Any = struct{ X, Y string }{"1", ""}
		set("any", &V{K: KDict, M: map[string]*V{"x": vStr("1")}})
	case 3:
		v.Any = J.NewString("doc")
		set("any", vStr("doc"))
	}
	if r.P(1, 2) {
		v.Bytes = []byte{0, 255}
		set("bytes", vArr(vInt(0), vInt(255)))
	}
	if r.P(1, 2) {
		v.Fn = map[string]interface{}{"a": 1, "b": "x", "c": []int{}, "d": map[string]string{}}
		set("fn", &V{K: KDict, M: map[string]*V{"a": vInt(1), "b": vStr("x"), "c": vArr(), "d": vDict()}})
	}
	var doc J.JSONObject
	if r.P(1, 2) {
		doc = J.Marshal(v)
	} else {
		doc = J.Marshal(&v)
	}
	c.Note("%s", doc.String())
	if d := diffRef(want, observe(doc), "$"); d != "" {
		c.Fail("%s\ndocument %s", d, clip(doc.String(), 3000))
	}
	c.Ev("static", 1)
	// nothing omitted: every name is there
	all := observe(J.MarshalAll(v))
	names := []string{"common", "prefix", "uuid", "given_name", "from_name", "-", "camel_case", "empty", "zero", "false", "tri", "t", "ta", "pt", "s64", "s64z", "any", "bytes", "fn"}
	c.Check(len(all.M) == len(names), "with nothing omitted: %v, expected %v", all.keys(), names)
	for _, n := range names {
		c.Check(all.M[n] != nil, "with nothing omitted: %s is missing in %v", n, all.keys())
	}
	for k, x := range want.M {
		if d := diffRef(x, all.M[k], "$."+k); d != "" && x.K != KArr && x.K != KDict {
			c.Fail("with nothing omitted: %s", d)
		}
	}
	if v.Tri == tristate.None {
		c.Check(all.M["tri"].K == KNull, "with nothing omitted: an unset tri-state is %s", all.M["tri"].brief())
	}
	if v.PT == nil {
		c.Check(all.M["pt"].K == KNull, "with nothing omitted: a nil pointer is %s", all.M["pt"].brief())
	}
	if v.Any == nil {
		c.Check(all.M["any"].K == KNull, "with nothing omitted: a nil interface is %s", all.M["any"].brief())
	}
	if v.Bytes == nil {
		c.Check(all.M["bytes"].K == KNull, "with nothing omitted: a nil list is %s", all.M["bytes"].brief())
	}
	if v.Fn == nil {
		c.Check(all.M["fn"].K == KNull, "with nothing omitted: a nil map is %s", all.M["fn"].brief())
	}
}

// c14Maps: a map gives one member per key whatever the order of insertion
func c14Maps(c *Ctx, i int) {
	r := c.R
	n := r.size(257)
	var keys []string
	seen := map[string]bool{}
	for len(keys) < n {
		k := r.key(sAny)
		if r.P(1, 3) {
			k += pick(r, []string{"", "\x00", "a", "é", "0"})
		}
		if n > 20 && r.P(1, 2) {
			k += fmt.Sprint(r.N(1000))
		}
		if !seen[k] {
			seen[k] = true
			keys = append(keys, k)
		}
	}
	m1, m2 := map[NKey]interface{}{}, map[NKey]interface{}{}
	m3 := map[string]string{}
	want, want3 := vDict(), vDict()
	for j, k := range keys {
		m1[NKey(k)] = j
		want.M[k] = vInt(int64(j))
		m3[k] = k
		want3.M[k] = vStr(k)
	}
	for _, j := range r.Perm(len(keys)) {
		m2[NKey(keys[j])] = j
	}
	for _, f := range []func(interface{}) J.JSONObject{J.Marshal, J.MarshalAll} {
		a, b := f(m1), f(m2)
		if d := diff(want, observe(a), exact); d != "" {
			c.Fail("map of %d keys: %s", n, d)
		}
		c.Check(a.String() == b.String(), "equal maps give different texts %s and %s", q(a.String()), q(b.String()))
		if d := diff(want3, observe(f(m3)), exact); d != "" {
			c.Fail("map of %d keys: %s", n, d)
		}
	}
	c.Ev("map_members", len(keys))
	c.Distinct("map", J.Marshal(m3).String())
}
