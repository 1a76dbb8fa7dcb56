package main

import (
	"math"
	"reflect"
	"time"

	J "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

// C13: Go values survive marshalling and unmarshalling

func init() {
	register(&Prop{
		ID:   "C13",
		Rule: "random struct types (options, names, embedding, nesting of lists, arrays, maps, pointers, documents, times, types with JSON methods) with random values, marshalled and unmarshalled into a fresh value, directly and through the compact and pretty text; restored value compared field by field, source and document by fingerprint; distinct (type, text) pairs count",
		Assume: []string{
			"lists and maps have no nil elements (they are left out by design); the string option is on scalars only; embedded pointers may come back as pointers to empty structs (K2); types do not contain themselves except through pointers; no not-a-number",
		},
		W: []Workload{
			twinsWorkload(),
			{Name: "random", N: counts(60000, 600000), Run: c13Random},
			{Name: "scalars", N: counts(20000, 200000), Run: c13Scalars},
			{Name: "static", N: counts(6000, 60000), Run: c13Static},
		},
		MinEv: map[string]int64{"restored_direct": 10000, "restored_compact": 3000, "restored_pretty": 1000, "fields_restored": 50000, "kind_time": 500, "kind_std": 500, "kind_tristate": 500, "kind_map": 1000, "kind_array": 400, "kind_document-value": 300},
		Probe: map[string]func() (bool, string){"K2": probeK2},
	})
}

// K2: nested embedded nil pointers lose their content
type K2Inner struct{ Deep string }
type K2Mid struct{ *K2Inner }
type K2Outer struct{ *K2Mid }

func probeK2() (bool, string) {
	o, err := J.ParseString(`{"deep":"x"}`)
	if err != nil {
		return true, err.Error()
	}
	t := K2Outer{}
	err = o.Unmarshal(&t)
	return t.K2Mid == nil || t.K2Inner == nil || t.Deep != "x", `Unmarshal {"deep":"x"} into Outer{*Mid{*Inner{Deep}}}`
}

var c13Types = &tOpt{depth: 3, strOpt: true}

func restore(c *Ctx, t *T, v reflect.Value, doc J.JSONObject, how string) {
	before := observe(doc)
	fp := show(v)
	p := reflect.New(t.RT)
	if err := doc.Unmarshal(p.Interface()); err != nil {
		c.Fail("%s: cannot unmarshal %s into a fresh %s: %v", how, clip(doc.String(), 1500), t, err)
	}
	if d := eqVal(t, v, p.Elem(), nil, "$"); d != "" {
		c.Fail("%s: %s\ntype %s\nvalue %s\ndocument %s\nrestored %s", how, d, t, clip(fp, 1500), clip(doc.String(), 1500), clip(show(p.Elem()), 1500))
	}
	if d := diff(before, observe(doc), exact); d != "" {
		c.Fail("%s: unmarshalling changed the document: %s", how, d)
	}
	c.Check(show(v) == fp, "%s: unmarshalling changed the source value: %s, was %s", how, show(v), fp)
	c.Ev("restored_"+how, 1)
}

func goRoundTrip(c *Ctx, t *T, v reflect.Value) {
	r := c.R
	fp := show(v)
	var doc J.JSONObject
	if r.P(1, 2) && v.Kind() != reflect.Ptr {
		doc = J.Marshal(v.Addr().Interface())
	} else {
		doc = J.Marshal(v.Interface())
	}
	c.Note("type %s value %s text %s", t, fp, doc.String())
	c.Check(show(v) == fp, "marshalling changed the value: %s, was %s", clip(show(v), 1500), clip(fp, 1500))
	restore(c, t, v, doc, "direct")
	txt := doc.String()
	if r.P(1, 2) {
		o, err := J.ParseString(txt)
		if err != nil {
			c.Fail("the text of %s does not parse: %v", q(txt), err)
		}
		restore(c, t, v, o, "compact")
	}
	if r.P(1, 4) {
		pt := doc.PrettyString()
		o, err := J.ParseString(pt)
		if err != nil {
			c.Fail("the pretty text %s does not parse: %v", q(pt), err)
		}
		restore(c, t, v, o, "pretty")
	}
	c.Distinct(t.RT.String(), txt)
}

func c13Random(c *Ctx, i int) {
	pool := 1200
	if c.tier {
		pool = 12000
	}
	t := poolType(c, "c13", i%pool, c13Types)
	r := c.R
	v := reflect.New(t.RT).Elem()
	r.val(t, (&vOpt{str: sAny, fill: 4 + r.N(7), noNilElem: true}).large(r, 50), v, r.P(1, 2))
	goRoundTrip(c, t, v)
	nf := 0
	t.walk(func(x *T) {
		nf += len(x.F)
		c.Ev("kind_"+tkNames[x.K], 1)
	})
	c.Ev("fields_restored", nf)
	c.Sample("%s of type %s", clip(J.Marshal(v.Interface()).String(), 200), clip(t.String(), 250))
}

// c13Scalars: values of every scalar type at the top, in a field, a list, a
// map and behind pointers, at the boundaries of the type
func c13Scalars(c *Ctx, i int) {
	r := c.R
	l := leaves[i%len(leaves)]
	if r.P(1, 4) {
		l = pick(r, append(append([]*T{timeType, triType, docObj}, stdTypes...), docVals...))
	}
	t := l
	switch r.N(7) {
	case 0:
		t = sliceOf(l)
	case 1:
		t = mapOf(r, l)
	case 2:
		t = ptrTo(l)
	case 3:
		t = ptrTo(ptrTo(l))
	case 4:
		t = arrayOf(l, 1+r.N(3))
	case 5:
		t = sliceOf(ptrTo(sliceOf(l)))
	}
	v := reflect.New(t.RT).Elem()
	r.val(t, (&vOpt{str: sAny, fill: 10, noNilElem: true}).large(r, 30), v, true)
	if t == l {
		switch l.K {
		case tInt:
			b := uint(l.RT.Bits())
			v.SetInt(pick(r, []int64{0, 1, -1, math.MaxInt64 >> (64 - b), math.MinInt64 >> (64 - b), v.Int()}))
		case tUint:
			b := uint(l.RT.Bits())
			v.SetUint(pick(r, []uint64{0, 1, math.MaxUint64 >> (64 - b), math.MaxUint64>>(64-b) - 1, 1 << (b - 1), v.Uint()}))
		case tF64:
			v.SetFloat(pick(r, []float64{0, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1<<53 + 2, 1e18, 9.3e18, 0.1, v.Float()}))
		case tF32:
			v.SetFloat(float64(pick(r, []float32{0, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 16777216, 0.1, float32(v.Float())})))
		}
	}
	goRoundTrip(c, t, v)
	c.Ev("scalar_"+tkNames[l.K], 1)
}

// Static types, with what reflect cannot make: unexported and ignored fields,
// recursive types, embedded named types, promoted tags

type C13Base struct {
	Id      string    `json:"id"`
	Created time.Time `json:"created_at"`
	hidden  int
}

type C13Status struct {
	Status  string            `json:"status"`
	Enabled tristate.TriState `json:"enabled"`
	Meta    map[string]string `json:"metadata,allowempty"`
}

type C13Tree struct {
	C13Base
	*C13Status
	Name     string              `json:"name"`
	Size     *int                `json:"size"`
	Kids     []*C13Tree          `json:"kids"`
	ByName   map[string]*C13Tree `json:"by_name"`
	Values   []C13Leaf
	Left     *C13Tree
	Extra    J.JSONObject
	Opts     *J.JSONDict
	secret   string
	Password string `json:"-"`
	Dash     string `json:"-,"`
	Rate     float64
	Blob     []byte
	When     *time.Time
	Wait     time.Duration
	Point    *StdPoint
	Nested   struct {
		Inner struct {
			Deep []map[string][]int
		}
	}
}

type C13Leaf struct {
	A, B  int8
	Flags [3]bool
	U     uint64
	S     *string
}

func c13Tree(r *Rand, depth int) *C13Tree {
	t := &C13Tree{Name: r.str(sAny), Rate: r.float(), secret: "s", Password: "p", Dash: r.str(sAny)}
	if t.Rate == 0 {
		t.Rate = 0
	}
	t.Id = r.str(sAny)
	t.hidden = 3
	if r.P(1, 2) {
		t.Created = r.timeVal()
	}
	if r.P(2, 3) {
		t.C13Status = &C13Status{Status: r.str(sAny), Enabled: pick(r, []tristate.TriState{tristate.True, tristate.False, tristate.None})}
		if r.P(1, 2) {
			t.C13Status.Meta = map[string]string{}
			for i := r.N(4); i > 0; i-- {
				t.C13Status.Meta[r.key(sAny)] = r.str(sAny)
			}
		}
	}
	if r.P(1, 2) {
		n := int(r.int64v())
		t.Size = &n
	}
	for i := r.N(3); i > 0 && depth > 0; i-- {
		t.Kids = append(t.Kids, c13Tree(r, depth-1))
	}
	if r.P(1, 3) && depth > 0 {
		t.ByName = map[string]*C13Tree{}
		for i := r.N(3); i > 0; i-- {
			t.ByName[r.key(sAny)] = c13Tree(r, depth-1)
		}
	}
	if r.P(1, 3) && depth > 0 {
		t.Left = c13Tree(r, depth-1)
	}
	for i := r.N(3); i > 0; i-- {
		s := r.str(sAny)
		t.Values = append(t.Values, C13Leaf{int8(r.N(256)), int8(r.N(256)), [3]bool{r.P(1, 2), r.P(1, 2), r.P(1, 2)}, r.Uint64(), &s})
	}
	if r.P(1, 2) {
		t.Extra = build(r.docVal(pick(r, []Kind{KStr, KInt, KDict, KArr, KBool, KFloat}), &vOpt{str: sAny}))
	}
	if r.P(1, 3) {
		t.Opts = build(r.docVal(KDict, &vOpt{str: sAny})).(*J.JSONDict)
	}
	for i := r.N(4); i > 0; i-- {
		t.Blob = append(t.Blob, byte(r.N(256)))
	}
	if r.P(1, 3) {
		w := r.timeVal()
		t.When = &w
	}
	t.Wait = time.Duration(r.int64v())
	if r.P(1, 3) {
		t.Point = &StdPoint{r.N(100), -r.N(100)}
	}
	for i := r.N(3); i > 0; i-- {
		m := map[string][]int{r.key(sAny): {r.N(9), r.N(9)}, "e": {}}
		t.Nested.Inner.Deep = append(t.Nested.Inner.Deep, m)
	}
	return t
}

// normTree clears what is not written and makes empty and absent the same
func normTree(t *C13Tree) {
	t.hidden, t.secret, t.Password = 0, "", ""
	norm := func(tm time.Time) time.Time {
		if tm.IsZero() {
			return time.Time{}
		}
		return time.UnixMicro(tm.UnixMicro()).UTC()
	}
	t.Created = norm(t.Created)
	if t.When != nil {
		w := norm(*t.When)
		t.When = &w
	}
	if t.C13Status == nil {
		t.C13Status = &C13Status{}
	}
	if len(t.Meta) == 0 {
		t.C13Status.Meta = nil
	}
	if len(t.Kids) == 0 {
		t.Kids = nil
	}
	for _, k := range t.Kids {
		normTree(k)
	}
	if len(t.ByName) == 0 {
		t.ByName = nil
	}
	for _, k := range t.ByName {
		normTree(k)
	}
	if t.Left != nil {
		normTree(t.Left)
	}
	for i := range t.Values {
		if t.Values[i].S != nil && *t.Values[i].S == "" {
			t.Values[i].S = nil
		}
	}
	if len(t.Blob) == 0 {
		t.Blob = nil
	}
	for _, m := range t.Nested.Inner.Deep {
		for k := range m {
			if len(m[k]) == 0 {
				m[k] = nil
			}
		}
	}
}

func numText(t *C13Tree) string {
	// documents as numeric text: floats that read as integers are the same
	var fix func(o J.JSONObject) J.JSONObject
	fix = func(o J.JSONObject) J.JSONObject {
		if o == nil {
			return nil
		}
		x, err := J.ParseString(o.String())
		if err != nil {
			return o
		}
		return x
	}
	var walk func(t *C13Tree)
	walk = func(t *C13Tree) {
		if t.Extra != nil {
			t.Extra = fix(t.Extra)
		}
		if t.Opts != nil {
			t.Opts = fix(t.Opts).(*J.JSONDict)
		}
		for _, k := range t.Kids {
			walk(k)
		}
		for _, k := range t.ByName {
			walk(k)
		}
		if t.Left != nil {
			walk(t.Left)
		}
	}
	walk(t)
	return show(reflect.ValueOf(t))
}

func c13Static(c *Ctx, i int) {
	r := c.R
	// the same random choices give the same tree twice: one to marshal, one
	// as the reference
	seed := r.Uint64()
	src := c13Tree(newRand(seed), 2)
	ref := c13Tree(newRand(seed), 2)
	before := show(reflect.ValueOf(src))
	doc := J.Marshal(src)
	if r.P(1, 3) {
		doc = J.Marshal(*src)
	}
	c.Check(show(reflect.ValueOf(src)) == before, "marshalling changed the value %s", clip(before, 2000))
	how := "direct"
	switch r.N(3) {
	case 1:
		how = "compact"
		o, err := J.ParseString(doc.String())
		c.Check(err == nil, "the text does not parse: %v", err)
		doc = o
	case 2:
		how = "pretty"
		o, err := J.ParseString(doc.PrettyString())
		c.Check(err == nil, "the pretty text does not parse: %v", err)
		doc = o
	}
	c.Note("%s", doc.String())
	got := &C13Tree{}
	if err := doc.Unmarshal(got); err != nil {
		c.Fail("%s: unmarshal %s: %v", how, clip(doc.String(), 3000), err)
	}
	c.Check(show(reflect.ValueOf(src)) == before, "unmarshalling changed the value %s", clip(before, 2000))
	c.Check(got.secret == "" && got.hidden == 0 && got.Password == "", "a field that is not written was filled")
	normTree(got)
	normTree(ref)
	a, b := numText(ref), numText(got)
	c.Check(a == b, "%s: restored\n%s\noriginal\n%s\ndocument %s", how, clip(b, 2500), clip(a, 2500), clip(doc.String(), 1000))
	c.Ev("restored_static", 1)
	c.Distinct("static", doc.String())
}
