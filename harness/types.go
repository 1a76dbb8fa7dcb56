package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	J "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

// Random Go types with a description of their own, from which the oracles
// work: they never ask the library what a field is called or when it is
// omitted.

type TKind int

const (
	tBool TKind = iota
	tInt
	tUint
	tF32
	tF64
	tStr
	tTime
	tTri
	tDocObj // J.JSONObject
	tDocPtr // *J.JSONxxx
	tDocVal // J.JSONxxx
	tStd    // own MarshalJSON and UnmarshalJSON
	tSlice
	tArray
	tMap
	tPtr
	tStruct
	tAny // interface{}
)

var tkNames = []string{"bool", "int", "uint", "float32", "float64", "string", "time", "tristate", "JSONObject", "document-pointer", "document-value", "std", "slice", "array", "map", "pointer", "struct", "interface"}

type T struct {
	K    TKind
	RT   reflect.Type
	Elem *T
	N    int
	F    []*Fld
	Doc  Kind // of the document value or pointer
}

type fopts struct {
	omitEmpty, omitZero, omitFalse, str bool
}

type Fld struct {
	Go    string // field name
	Tag   string
	Name  string // member name
	Snake string
	fopts
	Ignore bool
	Embed  bool // a struct or a pointer to one, flattened
	Dep    string
	T      *T
}

func (t *T) String() string { return clip(t.RT.String(), 1500) }

// flat lists the fields of a struct with those of embedded ones, with a path
// to each
type flatField struct {
	f    *Fld
	path []int
}

func (t *T) flat() []flatField { return t.flatAt(nil) }

func (t *T) flatAt(path []int) []flatField {
	var ret []flatField
	for i, f := range t.F {
		p := append(append([]int(nil), path...), i)
		if f.Embed {
			e := f.T
			if e.K == tPtr {
				e = e.Elem
			}
			ret = append(ret, e.flatAt(p)...)
			continue
		}
		ret = append(ret, flatField{f, p})
	}
	return ret
}

// at follows a path through embedded structs, with alloc nil pointers are
// filled
func at(v reflect.Value, path []int, alloc bool) (reflect.Value, bool) {
	for _, i := range path {
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				if !alloc {
					return reflect.Value{}, false
				}
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
		v = v.Field(i)
	}
	return v, true
}

// Named types

type (
	NBool  bool
	NInt   int
	NInt8  int8
	NInt64 int64
	NUint  uint
	NUint6 uint64
	NF32   float32
	NF64   float64
	NStr   string
	// NKey prints differently from what it is
	NKey string
	NSli []string
	NMap map[string]int
)

func (k NKey) String() string { return "<" + string(k) + ">" }

// StdPoint marshals to a list
type StdPoint struct{ x, y int }

func (p StdPoint) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf("[%d, %d]", p.x, p.y)), nil
}

func (p *StdPoint) UnmarshalJSON(b []byte) error {
	var a []int
	if err := json.Unmarshal(b, &a); err != nil {
		return err
	}
	if len(a) != 2 {
		return fmt.Errorf("not a point")
	}
	p.x, p.y = a[0], a[1]
	return nil
}

// StdName marshals to an object
type StdName string

func (n StdName) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]interface{}{"n": string(n), "len": len(n)})
}

func (n *StdName) UnmarshalJSON(b []byte) error {
	a := struct {
		N string `json:"n"`
	}{}
	if err := json.Unmarshal(b, &a); err != nil {
		return err
	}
	*n = StdName(a.N)
	return nil
}

// StdNum marshals to a string
type StdNum int

func (n StdNum) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("\"n=%d\"", int(n))), nil }

func (n *StdNum) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	if !strings.HasPrefix(s, "n=") {
		return fmt.Errorf("no n=")
	}
	i, err := strconv.Atoi(s[2:])
	*n = StdNum(i)
	return err
}

// StdFloat marshals to a number
type StdFloat struct{ f float64 }

func (n StdFloat) MarshalJSON() ([]byte, error) {
	return []byte(strconv.FormatFloat(n.f, 'g', -1, 64)), nil
}

func (n *StdFloat) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &n.f)
}

type tOpt struct {
	depth    int
	any      bool // interface{} fields
	noStd    bool
	noDoc    bool
	noTime   bool
	noIgnore bool
	noEmbPtr bool
	strOpt   bool // allow the string option
	strAll   bool // on containers too
	maxField int
	wide     int // so many fields rather than a few
	noArray  bool
	names    map[string]bool
}

func rt[X any]() reflect.Type { var x *X; return reflect.TypeOf(x).Elem() }

func leafTypes() []*T {
	l := func(k TKind, ts ...reflect.Type) []*T {
		var r []*T
		for _, t := range ts {
			r = append(r, &T{K: k, RT: t})
		}
		return r
	}
	var r []*T
	r = append(r, l(tBool, rt[bool](), rt[NBool]())...)
	r = append(r, l(tInt, rt[int](), rt[int8](), rt[int16](), rt[int32](), rt[int64](), rt[NInt](), rt[NInt8](), rt[NInt64](), rt[time.Duration]())...)
	r = append(r, l(tUint, rt[uint](), rt[uint8](), rt[uint16](), rt[uint32](), rt[uint64](), rt[NUint](), rt[NUint6]())...)
	r = append(r, l(tF32, rt[float32](), rt[NF32]())...)
	r = append(r, l(tF64, rt[float64](), rt[NF64]())...)
	r = append(r, l(tStr, rt[string](), rt[NStr](), rt[NKey]())...)
	return r
}

var (
	leaves   = leafTypes()
	timeType = &T{K: tTime, RT: rt[time.Time]()}
	triType  = &T{K: tTri, RT: rt[tristate.TriState]()}
	docObj   = &T{K: tDocObj, RT: rt[J.JSONObject]()}
	docPtrs  = []*T{{K: tDocPtr, RT: rt[*J.JSONDict](), Doc: KDict}, {K: tDocPtr, RT: rt[*J.JSONArray](), Doc: KArr}, {K: tDocPtr, RT: rt[*J.JSONString](), Doc: KStr}, {K: tDocPtr, RT: rt[*J.JSONInt](), Doc: KInt}, {K: tDocPtr, RT: rt[*J.JSONFloat](), Doc: KFloat}, {K: tDocPtr, RT: rt[*J.JSONBool](), Doc: KBool}}
	docVals  = []*T{{K: tDocVal, RT: rt[J.JSONDict](), Doc: KDict}, {K: tDocVal, RT: rt[J.JSONArray](), Doc: KArr}, {K: tDocVal, RT: rt[J.JSONString](), Doc: KStr}, {K: tDocVal, RT: rt[J.JSONInt](), Doc: KInt}, {K: tDocVal, RT: rt[J.JSONFloat](), Doc: KFloat}, {K: tDocVal, RT: rt[J.JSONBool](), Doc: KBool}}
	stdTypes = []*T{{K: tStd, RT: rt[StdPoint]()}, {K: tStd, RT: rt[StdName]()}, {K: tStd, RT: rt[StdNum]()}, {K: tStd, RT: rt[StdFloat]()}, {K: tStd, RT: rt[json.RawMessage]()}}
	anyType  = &T{K: tAny, RT: rt[interface{}]()}
)

func (r *Rand) leafType(o *tOpt) *T {
	switch r.N(16) {
	case 0:
		if !o.noTime {
			return timeType
		}
	case 1:
		return triType
	case 2:
		if !o.noDoc {
			return docObj
		}
	case 3:
		if !o.noDoc {
			return pick(r, docPtrs)
		}
	case 4:
		if !o.noDoc {
			return pick(r, docVals)
		}
	case 5:
		if !o.noStd {
			return pick(r, stdTypes)
		}
	case 6:
		if o.any {
			return anyType
		}
	}
	return pick(r, leaves)
}

func sliceOf(e *T) *T        { return &T{K: tSlice, RT: reflect.SliceOf(e.RT), Elem: e} }
func arrayOf(e *T, n int) *T { return &T{K: tArray, RT: reflect.ArrayOf(n, e.RT), Elem: e, N: n} }

func ptrTo(e *T) *T {
	if e.K == tDocVal {
		for _, d := range docPtrs {
			if d.Doc == e.Doc {
				return d
			}
		}
	}
	return &T{K: tPtr, RT: reflect.PtrTo(e.RT), Elem: e}
}

func mapOf(r *Rand, e *T) *T {
	kt := rt[string]()
	switch r.N(4) {
	case 0:
		kt = rt[NStr]()
	case 1:
		kt = rt[NKey]()
	}
	return &T{K: tMap, RT: reflect.MapOf(kt, e.RT), Elem: e}
}

func (r *Rand) goType(o *tOpt, depth int) *T {
	if depth <= 0 || r.P(2, 5) {
		return r.leafType(o)
	}
	switch r.N(11) {
	case 0, 1, 2:
		if r.P(1, 8) {
			return &T{K: tSlice, RT: rt[NSli](), Elem: &T{K: tStr, RT: rt[string]()}}
		}
		return sliceOf(r.goType(o, depth-1))
	case 3:
		if o.noArray {
			return sliceOf(r.goType(o, depth-1))
		}
		return arrayOf(r.goType(o, depth-1), r.N(4))
	case 4, 5:
		if r.P(1, 8) {
			return &T{K: tMap, RT: rt[NMap](), Elem: &T{K: tInt, RT: rt[int]()}}
		}
		return mapOf(r, r.goType(o, depth-1))
	case 6, 7:
		return ptrTo(r.goType(o, depth-1))
	default:
		return r.structType(o, depth-1, nil, 0)
	}
}

var words1 = []string{"alpha", "beta", "gamma", "delta", "name", "size", "host", "guest", "disk", "net", "zone", "flag", "count", "rate", "owner", "label", "state", "image", "price", "time"}
var words2 = []string{"", "", "Id", "Kind", "Max", "Min", "List", "Map", "Old", "New", "Ref", "Set"}

// structType makes a struct type with distinct field and member names
func (r *Rand) structType(o *tOpt, depth int, used map[string]bool, emb int) *T {
	if used == nil {
		used = map[string]bool{}
	}
	n := 1 + r.N(6)
	if r.P(1, 6) {
		n = 7 + r.N(10)
	}
	if r.P(1, 20) {
		n = 0
	}
	if o.maxField > 0 && n > o.maxField {
		n = o.maxField
	}
	wide := o.wide > 0
	if wide {
		n = o.wide
		c := *o
		c.wide = 0
		o = &c
	}
	ret := &T{K: tStruct}
	var sf []reflect.StructField
	for i := 0; i < n; i++ {
		w1, w2 := pick(r, words1), pick(r, words2)
		if wide {
			w2 = pick(r, words1)
			w2 = strings.ToUpper(w2[:1]) + w2[1:]
		}
		gn := strings.ToUpper(w1[:1]) + w1[1:] + w2
		snake := w1
		if w2 != "" {
			snake += "_" + strings.ToLower(w2)
		}
		if used[snake] {
			continue
		}
		used[snake] = true
		f := &Fld{Go: gn, Name: snake, Snake: snake, fopts: fopts{omitEmpty: true}}
		if emb < 1 && r.P(1, 8) {
			f.Embed = true
			f.T = r.structType(&tOpt{depth: 1, any: o.any, noStd: o.noStd, noDoc: o.noDoc, noTime: o.noTime, strOpt: o.strOpt, strAll: o.strAll, maxField: 5, noArray: o.noArray, noIgnore: o.noIgnore}, depth-1, used, emb+1)
			if r.P(1, 3) && !o.noEmbPtr {
				f.T = ptrTo(f.T)
			}
			sf = append(sf, reflect.StructField{Name: gn, Type: f.T.RT, Anonymous: true})
			ret.F = append(ret.F, f)
			continue
		}
		f.T = r.goType(o, depth)
		var opts []string
		nm := ""
		switch r.N(8) {
		case 0:
			nm = pick(r, []string{"x", "y", "A", "B", "a-b", "c.d", "名", "Upper_Case", "0", "1st", "true", "null"}) + strconv.Itoa(r.N(4))
		case 1:
			nm = gn
		}
		if nm != "" && !used["="+nm] && !used[nm] {
			used["="+nm] = true
			used[nm] = true
			f.Name = nm
		} else {
			nm = ""
		}
		if r.P(1, 4) {
			opts = append(opts, "omitempty")
		}
		if r.P(1, 3) {
			opts = append(opts, "allowempty")
			f.omitEmpty = false
		}
		if r.P(1, 3) {
			opts = append(opts, "omitzero")
			f.omitZero = true
		} else if r.P(1, 6) {
			opts = append(opts, "allowzero")
		}
		if r.P(1, 3) {
			opts = append(opts, "omitfalse")
			f.omitFalse = true
		} else if r.P(1, 6) {
			opts = append(opts, "allowfalse")
		}
		if o.strOpt && r.P(1, 4) {
			e := f.T
			for e.K == tPtr {
				e = e.Elem
			}
			if e.K <= tStr || o.strAll && (e.K == tSlice || e.K == tArray || e.K == tMap || e.K == tStruct) {
				opts = append(opts, "string")
				f.str = true
			}
		}
		if r.P(1, 12) && !o.noIgnore {
			f.Ignore = true
			f.Tag = `json:"-"`
			if nm != "" {
				delete(used, "="+nm)
			}
			f.Name = snake
		} else {
			opts = shuffled(r, opts)
			// the last of contradicting options counts
			for _, x := range opts {
				switch x {
				case "omitempty":
					f.omitEmpty = true
				case "allowempty":
					f.omitEmpty = false
				}
			}
			if nm != "" && r.P(1, 4) {
				f.Tag = fmt.Sprintf(`name:"%s"`, nm)
				if len(opts) > 0 {
					f.Tag = fmt.Sprintf(`json:",%s" name:"%s"`, strings.Join(opts, ","), nm)
				}
			} else if nm != "" || len(opts) > 0 {
				f.Tag = fmt.Sprintf(`json:"%s"`, strings.Join(append([]string{nm}, opts...), ","))
			}
			if r.P(1, 10) {
				f.Tag = strings.TrimSpace(f.Tag + ` help:"some text, of a user"`)
			}
		}
		sf = append(sf, reflect.StructField{Name: gn, Type: f.T.RT, Tag: reflect.StructTag(f.Tag)})
		ret.F = append(ret.F, f)
	}
	ret.RT = reflect.StructOf(sf)
	return ret
}

var typePools sync.Map

// poolType gives the i-th random type of a pool
func poolType(c *Ctx, pool string, i int, o *tOpt) *T {
	key := fmt.Sprintf("%d/%s/%d", c.seed, pool, i)
	if t, ok := typePools.Load(key); ok {
		return t.(*T)
	}
	r := newRand("type", key)
	t := r.structType(o, o.depth, nil, 0)
	if r.P(1, 5) {
		t = r.goType(o, o.depth)
	}
	if o.maxField == 0 && newRand("wide", key).P(1, 40) {
		wo := *o
		wo.wide = pick(r, []int{33, 65, 129, 260, 600})
		wo.depth = 1
		t = r.structType(&wo, 1, nil, 0)
	}
	x, _ := typePools.LoadOrStore(key, t)
	return x.(*T)
}

// Values

type vOpt struct {
	str        strOpt
	fill       int  // of 10: how often a value is not empty
	noNilElem  bool // no nil elements in lists and maps
	noBigUint  bool
	noEmptyDoc bool // no empty or zero documents, which options treat in ways of their own
	embPtr     bool // embedded pointers are set
	noNull     bool // no null documents
	anyTyped   bool // interfaces hold values of other types than plain ones, too
	big        int  // so many elements may be put into large lists and maps
}

// large lets a few values have large lists and maps
func (o *vOpt) large(r *Rand, one int) *vOpt {
	if r.P(1, one) {
		o.big = pick(r, []int{40, 260, 1100, 5000})
		if r.P(1, 20) {
			o.big = 40000
		}
	}
	return o
}

// count gives the length of a list or map
func (r *Rand) count(o *vOpt) int {
	n := r.size(6)
	if r.P(1, 3) {
		n = 1 + r.N(3)
	}
	if o.big > 0 && r.P(1, 2) {
		n = o.big
		if r.P(1, 2) {
			n = o.big/2 + r.N(o.big)/2
		}
		o.big -= n
	}
	return n
}

var epoch = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// timeVal makes an instant between the years 1 and 9999 to the microsecond,
// in some time zone of whole minutes
func (r *Rand) timeVal() time.Time {
	var t time.Time
	switch r.N(7) {
	case 6:
		// special instants
		t = time.Unix(pick(r, []int64{0, 0, 1, -1, 1 << 31, 1<<31 - 1, 1 << 32, -1 << 31, 946684800, -62135596799, -62135596800 + 1<<20, 253402214400}), 0).UTC()
	case 0:
		t = time.Date(1+r.N(9998), time.Month(1+r.N(12)), 1+r.N(28), r.N(24), r.N(60), r.N(60), r.N(1000000)*1000, time.UTC)
	case 1:
		t = time.Date(2000+r.N(50), 1, 1, 0, 0, 0, 0, time.UTC)
	case 2:
		t = time.Date(1999, 12, 31, 23, 59, 59, 999999000, time.UTC)
	case 3:
		t = time.Unix(int64(r.N(2000000000)), int64(r.N(1000))*1000000).UTC()
	default:
		t = time.Unix(int64(r.N(2000000000)), int64(r.N(1000000))*1000).UTC()
	}
	if r.P(1, 3) && t.Year() > 1 && t.Year() < 9999 {
		t = t.In(time.FixedZone("z", (r.N(24*60)-12*60)*60))
	} else if r.P(1, 3) && t.Year() > 1 && t.Year() < 9999 {
		t = t.In(time.Local)
	}
	return t
}

func (r *Rand) docVal(k Kind, o *vOpt) *V {
	g := genOpt{str: o.str, maxSize: 10, depth: 2, noNeg0: true, noEmpty: o.noEmptyDoc, noNull: o.noNull}
	for {
		var v *V
		switch k {
		case KBool:
			v = vBool(r.P(1, 2) || o.noEmptyDoc)
		case KInt:
			v = vInt(r.int64v())
		case KFloat:
			v = vFloat(r.float())
			if v.F == 0 {
				v.F = 0
			}
		case KStr:
			v = vStr(r.str(o.str))
		case KArr:
			v = vArr()
			for i := r.N(4); i > 0; i-- {
				b := 4
				v.A = append(v.A, r.tree(&g, 1, &b, false))
			}
		default:
			v = vDict()
			for i := r.N(4); i > 0; i-- {
				b := 4
				v.M[r.key(o.str)] = r.tree(&g, 1, &b, false)
			}
		}
		if o.noEmptyDoc && (isNum(v) && v.I == 0 && v.F == 0 || v.K == KStr && v.S == "" || v.K == KArr && len(v.A) == 0 || v.K == KDict && len(v.M) == 0) {
			continue
		}
		return v
	}
}

// val fills v, a settable value of type t
func (r *Rand) val(t *T, o *vOpt, v reflect.Value, elem bool) {
	if !elem && r.N(10) >= o.fill && t.K != tStruct && t.K != tArray && t.K != tStd {
		if t.K == tSlice && r.P(1, 2) {
			v.Set(reflect.MakeSlice(t.RT, 0, r.N(3)))
		}
		if t.K == tMap && r.P(1, 2) {
			v.Set(reflect.MakeMap(t.RT))
		}
		if !(o.noEmptyDoc && t.K == tDocVal) {
			return
		}
	}
	keep := elem && o.noNilElem
	switch t.K {
	case tBool:
		v.SetBool(r.P(1, 2))
	case tInt:
		x := r.int64v()
		bits := v.Type().Bits()
		v.SetInt(x << uint(64-bits) >> uint(64-bits))
		if r.P(1, 4) {
			v.SetInt(int64(r.N(100)))
		}
	case tUint:
		x := uint64(r.int64v())
		if r.P(1, 3) {
			x = uint64(r.N(100))
		}
		bits := v.Type().Bits()
		x = x << uint(64-bits) >> uint(64-bits)
		if o.noBigUint && x > math.MaxInt64 {
			x >>= 1
		}
		v.SetUint(x)
	case tF32:
		f := r.float32v()
		if f == 0 {
			f = 0
		}
		v.SetFloat(float64(f))
	case tF64:
		f := r.float()
		if f == 0 {
			f = 0
		}
		v.SetFloat(f)
	case tStr:
		v.SetString(r.str(o.str))
	case tTime:
		v.Set(reflect.ValueOf(r.timeVal()))
	case tTri:
		v.Set(reflect.ValueOf(pick(r, []tristate.TriState{tristate.True, tristate.False})))
		if !keep && r.P(1, 5) {
			v.Set(reflect.ValueOf(tristate.None))
		}
	case tDocObj:
		if d := r.docVal(pick(r, []Kind{KBool, KInt, KFloat, KStr, KArr, KDict, KDict}), o); d != nil {
			v.Set(reflect.ValueOf(buildVia(r, d)))
		}
	case tDocPtr:
		v.Set(reflect.ValueOf(build(r.docVal(t.Doc, o))))
	case tDocVal:
		v.Set(reflect.ValueOf(build(r.docVal(t.Doc, o))).Elem())
	case tStd:
		switch t.RT {
		case rt[StdPoint]():
			v.Set(reflect.ValueOf(StdPoint{r.N(2001) - 1000, r.N(2001) - 1000}))
		case rt[StdName]():
			v.Set(reflect.ValueOf(StdName(r.str(sUTF8))))
		case rt[StdNum]():
			v.Set(reflect.ValueOf(StdNum(r.int64v())))
		case rt[StdFloat]():
			f := r.float()
			if f == 0 {
				f = 0
			}
			v.Set(reflect.ValueOf(StdFloat{f}))
		default:
			d := r.docVal(pick(r, []Kind{KBool, KInt, KStr, KArr, KDict}), &vOpt{str: sUTF8})
			v.Set(reflect.ValueOf(json.RawMessage(writeText(r, d, layoutPlain))))
		}
	case tSlice:
		n := r.count(o)
		v.Set(reflect.MakeSlice(t.RT, n, n+r.N(2)))
		for i := 0; i < n; i++ {
			r.val(t.Elem, o, v.Index(i), true)
		}
	case tArray:
		for i := 0; i < t.N; i++ {
			r.val(t.Elem, o, v.Index(i), r.P(3, 4))
		}
	case tMap:
		v.Set(reflect.MakeMap(t.RT))
		n := r.count(o)
		for i := n; i > 0; i-- {
			x := reflect.New(t.Elem.RT).Elem()
			r.val(t.Elem, o, x, true)
			k := r.key(o.str)
			if n > 30 {
				k = pick(r, []string{"k", "", "key-", k}) + strconv.Itoa(i)
			}
			v.SetMapIndex(reflect.ValueOf(k).Convert(t.RT.Key()), x)
		}
	case tPtr:
		if elem && !o.noNilElem && r.P(1, 5) {
			return
		}
		v.Set(reflect.New(t.Elem.RT))
		r.val(t.Elem, o, v.Elem(), keep)
	case tStruct:
		for i, f := range t.F {
			fv := v.Field(i)
			if f.Embed && f.T.K == tPtr {
				if o.embPtr || r.P(2, 3) {
					fv.Set(reflect.New(f.T.Elem.RT))
					r.val(f.T.Elem, o, fv.Elem(), false)
				}
				continue
			}
			if f.Ignore && r.P(1, 2) {
				continue
			}
			r.val(f.T, o, fv, false)
		}
	case tAny:
		if o.anyTyped && r.P(1, 2) {
			e := pick(r, anyTypes)
			x := reflect.New(e.RT).Elem()
			r.val(e, o, x, r.P(2, 3))
			v.Set(x)
			return
		}
		p := r.docVal(pick(r, []Kind{KBool, KInt, KFloat, KStr, KArr, KDict}), &vOpt{str: o.str, noEmptyDoc: true, noNull: true}).plain()
		v.Set(reflect.ValueOf(p))
	}
}

// Reference: what a value is written as; nil when it is left out. f are the
// options of the field, nil for elements.
func refMarshal(t *T, v reflect.Value, f *fopts, omit bool) *V {
	null := func() *V {
		if omit {
			return nil
		}
		return vNull()
	}
	emptyGone := f != nil && f.omitEmpty && omit
	zeroGone := f != nil && f.omitZero && omit
	str := f != nil && f.str
	switch t.K {
	case tBool:
		if !v.Bool() && f != nil && f.omitFalse && omit {
			return nil
		}
		if str {
			return vStr(strconv.FormatBool(v.Bool()))
		}
		return vBool(v.Bool())
	case tInt:
		if v.Int() == 0 && zeroGone {
			return nil
		}
		if str {
			return vStr(strconv.FormatInt(v.Int(), 10))
		}
		return vInt(v.Int())
	case tUint:
		if v.Uint() == 0 && zeroGone {
			return nil
		}
		if str {
			return vStr(strconv.FormatUint(v.Uint(), 10))
		}
		return vInt(int64(v.Uint()))
	case tF32, tF64:
		if v.Float() == 0 && zeroGone {
			return nil
		}
		if str {
			return &V{K: KStr, S: "\x00float", F: v.Float(), F32: t.K == tF32}
		}
		return &V{K: KFloat, F: v.Float(), F32: t.K == tF32}
	case tStr:
		if v.Len() == 0 && emptyGone {
			return nil
		}
		return vStr(v.String())
	case tTime:
		tm := v.Interface().(time.Time)
		if tm.IsZero() {
			if emptyGone {
				return nil
			}
			return vStr("")
		}
		return &V{K: KStr, S: "\x00time", I: tm.UnixMicro()}
	case tTri:
		switch v.Interface().(tristate.TriState) {
		case tristate.True:
			return vBool(true)
		case tristate.False:
			return vBool(false)
		}
		return null()
	case tDocObj, tDocPtr:
		if v.IsNil() {
			return null()
		}
		return observe(v.Interface().(J.JSONObject))
	case tDocVal:
		d := observe(docValObj(v))
		if emptyGone && (isNum(d) && d.I == 0 && d.F == 0 || d.K == KBool && !d.B || d.K == KStr && d.S == "" || d.K == KArr && len(d.A) == 0 || d.K == KDict && len(d.M) == 0) {
			return nil
		}
		return d
	case tStd:
		b, err := v.Interface().(json.Marshaler).MarshalJSON()
		if err != nil {
			panic(err)
		}
		d, _, err := decodeStrict(string(b), false)
		if err != nil {
			panic(err)
		}
		return d
	case tSlice, tArray:
		if t.K == tSlice && v.IsNil() {
			return null()
		}
		if v.Len() == 0 && emptyGone {
			return nil
		}
		ret := vArr()
		for i := 0; i < v.Len(); i++ {
			x := refMarshal(t.Elem, v.Index(i), nil, omit)
			if x == nil && t.K == tArray {
				x = vNull()
			}
			if x != nil {
				ret.A = append(ret.A, x)
			}
		}
		return heldAsText(ret, str)
	case tMap:
		if v.IsNil() {
			return null()
		}
		if v.Len() == 0 && emptyGone {
			return nil
		}
		ret := vDict()
		for _, k := range v.MapKeys() {
			if x := refMarshal(t.Elem, v.MapIndex(k), nil, omit); x != nil {
				ret.M[k.String()] = x
			}
		}
		return heldAsText(ret, str)
	case tPtr:
		if v.IsNil() {
			return null()
		}
		if t.Elem.K == tTime {
			// by the methods of the pointer
			return &V{K: KStr, S: "\x00time", I: v.Elem().Interface().(time.Time).UnixMicro()}
		}
		return refMarshal(t.Elem, v.Elem(), f, omit)
	case tStruct:
		ret := vDict()
		refFields(t, v, omit, ret)
		applyDeps(t, ret)
		if len(ret.M) == 0 && emptyGone {
			return nil
		}
		return heldAsText(ret, str)
	case tAny:
		if v.IsNil() {
			return null()
		}
		for _, e := range anyTypes {
			if e.RT == v.Elem().Type() {
				return refMarshal(e, v.Elem(), f, omit)
			}
		}
		return fromPlain(v.Interface())
	}
	panic("kind")
}

// heldAsText is the string that holds a container as JSON text
func heldAsText(x *V, str bool) *V {
	if !str {
		return x
	}
	return &V{K: KStr, S: "\x00json", A: []*V{x}}
}

// anyTypes are types of values in interfaces beside the plain ones
var anyTypes = makeAnyTypes()

func makeAnyTypes() []*T {
	var ret []*T
	plain := map[reflect.Type]bool{rt[bool](): true, rt[int64](): true, rt[float64](): true, rt[string](): true, rt[int](): true}
	str, num, flag := &T{K: tStr, RT: rt[string]()}, &T{K: tInt, RT: rt[int]()}, &T{K: tBool, RT: rt[bool]()}
	for _, e := range leaves {
		if !plain[e.RT] {
			ret = append(ret, e)
		}
	}
	m := func(e *T) *T { return &T{K: tMap, Elem: e, RT: reflect.MapOf(str.RT, e.RT)} }
	for _, e := range []*T{str, num, flag, {K: tF64, RT: rt[float64]()}} {
		ret = append(ret, sliceOf(e), m(e), ptrTo(e), ptrTo(ptrTo(e)), ptrTo(sliceOf(e)), arrayOf(e, 2), sliceOf(ptrTo(e)), m(sliceOf(e)))
	}
	f := &Fld{Go: "In", Name: "in", Snake: "in", fopts: fopts{omitEmpty: true}, T: str}
	st := &T{K: tStruct, F: []*Fld{f}, RT: reflect.StructOf([]reflect.StructField{{Name: "In", Type: str.RT}})}
	return append(ret, timeType, triType, st, ptrTo(st), sliceOf(st), m(ptrTo(st)))
}

func refFields(t *T, v reflect.Value, omit bool, ret *V) {
	for i, f := range t.F {
		if f.Ignore {
			continue
		}
		fv := v.Field(i)
		if f.Embed {
			e := f.T
			if e.K == tPtr {
				e = e.Elem
				if fv.IsNil() {
					fv = reflect.New(e.RT)
				}
				fv = fv.Elem()
			}
			refFields(e, fv, omit, ret)
			continue
		}
		if x := refMarshal(f.T, fv, &f.fopts, omit); x != nil {
			ret.M[f.Name] = x
		}
	}
}

// applyDeps writes the replaced fields of a struct with the value at the end
// of their chains
func applyDeps(t *T, ret *V) {
	dep := map[string]string{}
	for _, f := range t.flat() {
		if !f.f.Ignore && f.f.Dep != "" {
			dep[f.f.Name] = f.f.Dep
			delete(ret.M, f.f.Name)
		}
	}
	set := map[string]*V{}
	for name := range dep {
		end, steps := name, 0
		for dep[end] != "" && steps <= len(dep) {
			end = dep[end]
			steps++
		}
		if x := ret.M[end]; steps <= len(dep) && x != nil {
			set[name] = x
		}
	}
	for k, x := range set {
		ret.M[k] = x
	}
}

// docValObj makes a document of a JSONxxx value without touching it
func docValObj(v reflect.Value) J.JSONObject {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.Interface().(J.JSONObject)
}

func fromPlain(x interface{}) *V {
	switch y := x.(type) {
	case nil:
		return vNull()
	case bool:
		return vBool(y)
	case int64:
		return vInt(y)
	case int:
		return vInt(int64(y))
	case float64:
		return vFloat(y)
	case string:
		return vStr(y)
	case []interface{}:
		ret := vArr()
		for _, e := range y {
			ret.A = append(ret.A, fromPlain(e))
		}
		return ret
	case map[string]interface{}:
		ret := vDict()
		for k, e := range y {
			ret.M[k] = fromPlain(e)
		}
		return ret
	}
	return &V{K: KBad, S: fmt.Sprintf("%T", x)}
}

// diffRef compares a reference with an observed document: marked strings
// spell a float or an instant
func diffRef(ref, got *V, path string) string {
	if ref.K == KStr && ref.S == "\x00float" {
		if got.K != KStr {
			return fmt.Sprintf("%s: a string that spells %v expected, got %s", path, ref.F, got.brief())
		}
		bits := 64
		if ref.F32 {
			bits = 32
		}
		f, err := strconv.ParseFloat(got.S, bits)
		if err != nil || f != ref.F {
			return fmt.Sprintf("%s: %s does not spell %v", path, q(got.S), ref.F)
		}
		return ""
	}
	if ref.K == KStr && ref.S == "\x00time" {
		if got.K != KStr {
			return fmt.Sprintf("%s: a time expected, got %s", path, got.brief())
		}
		tm, err := time.Parse(time.RFC3339Nano, got.S)
		if err != nil || tm.UnixMicro() != ref.I {
			return fmt.Sprintf("%s: %s is not the instant %d", path, q(got.S), ref.I)
		}
		return ""
	}
	if ref.K == KStr && ref.S == "\x00json" {
		if got.K != KStr {
			return fmt.Sprintf("%s: a string that holds %s expected, got %s", path, ref.A[0].brief(), got.brief())
		}
		x, _, err := decodeStrict(got.S, true)
		if err != nil {
			return fmt.Sprintf("%s: %s is not JSON text: %v", path, q(clip(got.S, 500)), err)
		}
		return diffRef(ref.A[0], x, path+" (text)")
	}
	if ref.K == KArr && got.K == KArr && len(ref.A) == len(got.A) {
		for i := range ref.A {
			if d := diffRef(ref.A[i], got.A[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	}
	if ref.K == KDict && got.K == KDict {
		for _, k := range ref.keys() {
			x := got.M[k]
			if x == nil {
				return fmt.Sprintf("%s: member %s is missing (%s expected)", path, q(k), ref.M[k].brief())
			}
			if d := diffRef(ref.M[k], x, path+"."+clip(k, 60)); d != "" {
				return d
			}
		}
		for _, k := range got.keys() {
			if ref.M[k] == nil {
				return fmt.Sprintf("%s: member %s (%s) should not be there", path, q(k), got.M[k].brief())
			}
		}
		return ""
	}
	return diffAt(ref, got, numeric, path)
}

// eqVal compares a restored value with the original; f are the options of the
// field the value is in
func eqVal(t *T, want, got reflect.Value, f *fopts, path string) string {
	bad := func() string {
		return fmt.Sprintf("%s (%s): %s expected, got %s", path, tkNames[t.K], show(want), show(got))
	}
	if f != nil && t.K != tStruct && refMarshal(t, want, f, true) == nil {
		// left out: absent, that is zero
		if !zeroish(t, got) {
			return bad()
		}
		return ""
	}
	switch t.K {
	case tBool, tInt, tUint, tStr, tTri:
		if want.Interface() != got.Interface() {
			return bad()
		}
	case tF32, tF64:
		if want.Float() != got.Float() {
			return bad()
		}
	case tTime:
		a, b := want.Interface().(time.Time), got.Interface().(time.Time)
		if !a.Equal(b) && a.UnixMicro() != b.UnixMicro() {
			return bad()
		}
	case tDocObj, tDocPtr:
		if want.IsNil() || got.IsNil() {
			if want.IsNil() != got.IsNil() {
				return bad()
			}
			return ""
		}
		if d := diff(observe(want.Interface().(J.JSONObject)), observe(got.Interface().(J.JSONObject)), numeric); d != "" {
			return path + ": " + d
		}
	case tDocVal:
		if d := diff(observe(docValObj(want)), observe(docValObj(got)), numeric); d != "" {
			return path + ": " + d
		}
	case tStd:
		if t.RT == rt[json.RawMessage]() {
			a, _, e1 := decodeStrict(string(want.Bytes()), false)
			b, _, e2 := decodeStrict(string(got.Bytes()), false)
			if want.Len() == 0 && got.Len() == 0 {
				return ""
			}
			if e1 != nil || e2 != nil {
				return bad()
			}
			if d := diff(a, b, numeric); d != "" {
				return path + ": " + d
			}
			return ""
		}
		if want.Interface() != got.Interface() {
			return bad()
		}
	case tSlice, tArray:
		if want.Len() != got.Len() {
			return bad()
		}
		for i := 0; i < want.Len(); i++ {
			if d := eqVal(t.Elem, want.Index(i), got.Index(i), nil, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case tMap:
		if want.Len() != got.Len() {
			return bad()
		}
		for _, k := range want.MapKeys() {
			g := got.MapIndex(k)
			if !g.IsValid() {
				return fmt.Sprintf("%s: key %q is missing", path, k.String())
			}
			if d := eqVal(t.Elem, want.MapIndex(k), g, nil, fmt.Sprintf("%s[%q]", path, clip(k.String(), 40))); d != "" {
				return d
			}
		}
	case tPtr:
		if want.IsNil() || got.IsNil() {
			if want.IsNil() != got.IsNil() && !zeroish(t, want) {
				return bad()
			}
			if want.IsNil() && !zeroish(t, got) {
				return bad()
			}
			return ""
		}
		return eqVal(t.Elem, want.Elem(), got.Elem(), f, path+"*")
	case tStruct:
		for i, fl := range t.F {
			p := path + "." + fl.Go
			if fl.Ignore {
				continue
			}
			a, b := want.Field(i), got.Field(i)
			if fl.Embed {
				e := fl.T
				if e.K == tPtr {
					e = e.Elem
					if a.IsNil() {
						a = reflect.New(e.RT)
					}
					if b.IsNil() {
						b = reflect.New(e.RT)
					}
					a, b = a.Elem(), b.Elem()
				}
				if d := eqVal(e, a, b, nil, p); d != "" {
					return d
				}
				continue
			}
			if d := eqVal(fl.T, a, b, &fl.fopts, p); d != "" {
				return d
			}
		}
	case tAny:
		if want.IsNil() || got.IsNil() {
			if want.IsNil() != got.IsNil() {
				return bad()
			}
			return ""
		}
		if !reflect.DeepEqual(want.Interface(), got.Interface()) {
			return bad()
		}
	}
	return ""
}

// zeroish: the zero value, or one that is empty all the way down
func zeroish(t *T, v reflect.Value) bool {
	switch t.K {
	case tSlice, tMap:
		return v.Len() == 0
	case tPtr:
		return v.IsNil() || zeroish(t.Elem, v.Elem())
	case tArray:
		for i := 0; i < v.Len(); i++ {
			if !zeroish(t.Elem, v.Index(i)) {
				return false
			}
		}
		return true
	case tStruct:
		for i, f := range t.F {
			if !f.Ignore && !zeroish(f.T, v.Field(i)) {
				return false
			}
		}
		return true
	case tDocVal:
		d := observe(docValObj(v))
		return d.I == 0 && d.F == 0 && !d.B && d.S == "" && len(d.A) == 0 && len(d.M) == 0
	case tDocObj, tDocPtr, tAny:
		return v.IsNil()
	case tTime:
		return v.Interface().(time.Time).IsZero()
	}
	return v.IsZero()
}

// show prints a value with everything reachable from it: the fingerprint of a
// value
func show(v reflect.Value) string {
	sb := &strings.Builder{}
	showTo(sb, v, 0)
	return sb.String()
}

func showTo(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 60 {
		sb.WriteString("...")
		return
	}
	if !v.IsValid() {
		sb.WriteString("invalid")
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case time.Time:
			fmt.Fprintf(sb, "time(%s)", x.UTC().Format(time.RFC3339Nano))
			return
		case J.JSONObject:
			if v.Kind() == reflect.Ptr && v.IsNil() {
				sb.WriteString("nil")
				return
			}
			fmt.Fprintf(sb, "doc%s", observe(x).text())
			return
		case J.JSONDict, J.JSONArray, J.JSONString, J.JSONInt, J.JSONFloat, J.JSONBool:
			fmt.Fprintf(sb, "docval%s", observe(docValObj(v)).text())
			return
		case hookState:
			return
		case StdPoint, StdFloat, StdName, StdNum:
			fmt.Fprintf(sb, "%T%v", x, x)
			return
		case NKey:
			fmt.Fprintf(sb, "%q", string(x))
			return
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		sb.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64) + "f")
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil[]")
			return
		}
		fallthrough
	case reflect.Array:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			showTo(sb, v.Index(i), depth+1)
		}
		sb.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nilmap")
			return
		}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		sb.WriteString("map{")
		for _, k := range ks {
			fmt.Fprintf(sb, "%q:", k.String())
			showTo(sb, v.MapIndex(k), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('&')
		showTo(sb, v.Elem(), depth+1)
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			fmt.Fprintf(sb, "%s:", v.Type().Field(i).Name)
			showTo(sb, v.Field(i), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	default:
		fmt.Fprintf(sb, "?%s", v.Kind())
	}
}

// typeKinds counts the kinds a type is made of
func (t *T) walk(f func(*T)) {
	f(t)
	if t.Elem != nil {
		t.Elem.walk(f)
	}
	for _, x := range t.F {
		x.T.walk(f)
	}
}

func reflectNew(t *T) reflect.Value { return reflect.New(t.RT) }
