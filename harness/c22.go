package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	J "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/errors"
	"yunion.io/x/pkg/gotypes"
)

// C22: helper queries agree with the document

func init() {
	register(&Prop{
		ID:   "C22",
		Rule: "random documents with numbered names, lists, strings, nulls and booleans of many spellings under a few names, every helper called with random name lists (also names that spell the path to an inner member) and compared with the document model, the document compared with its fingerprint afterwards; distinct (document, arguments) pairs count",
		Assume: []string{
			"null text deserialized into an object or array type is not judged; the string of a member that is not a string is its printed text",
		},
		W: []Workload{
			{Name: "queries", N: counts(150000, 2500000), Run: c22Queries},
			{Name: "required", N: counts(60000, 900000), Run: c22Required},
			{Name: "deserialize", N: counts(60000, 900000), Run: c22Deserialize},
		},
		MinEv: map[string]int64{"any_string_found": 30000, "any_string_none": 10000, "runs": 50000, "run_elements": 50000, "string_lists": 50000, "booleans": 50000, "defaults": 20000, "required_ok": 8000, "required_missing": 4000, "required_null": 3000, "deserialized": 10000, "deserialize_error": 10000, "other_documents": 10000, "dotted_names": 40000},
		Init:  c22Init,
	})
}

// SerPoint is a registered serializable type
type SerPoint struct {
	X    int
	Name string
	Tags []string
	Seen int `json:"-"`
}

func (s *SerPoint) String() string { return J.Marshal(s).String() }
func (s *SerPoint) IsZero() bool   { return s.X == 0 }

func c22Init() {
	once("c22", func() {
		gotypes.RegisterSerializable(rt[*SerPoint](), func() gotypes.ISerializable { return &SerPoint{Name: "default"} })
		gotypes.RegisterSerializableTransformer(rt[*SerPoint](), func(s gotypes.ISerializable) gotypes.ISerializable {
			s.(*SerPoint).Seen++
			return s
		})
	})
}

var c22Names = []string{"a", "b", "name", "id", "k", "tag", "filter", "x.0", "", "A", "名"}

// text is what GetString gives for a document, nil when there is none
func textOf(v *V) string {
	if v.K == KStr {
		return v.S
	}
	return build(v).String()
}

func (r *Rand) c22Doc() *V {
	d := vDict()
	g := genOpt{str: sAny, maxSize: 6, depth: 2}
	// long lists, runs and numbered objects in some documents
	long := 0
	if r.P(1, 60) {
		long = 20 + r.N(pick(r, []int{30, 120, 1200}))
		if r.P(1, 60) {
			long = 4000 + r.N(3000)
		}
	}
	val := func() *V {
		switch r.N(9) {
		case 0:
			return vStr("")
		case 1:
			return vNull()
		case 2:
			return vStr(pick(r, []string{"true", "TRUE", "Yes", "on", "1", " on ", "false", "no", "off", "0", "2", "t", "y", "null", "truee", "tru e"}))
		case 3:
			ret := vArr()
			for i := r.N(4) + long*r.N(2); i > 0; i-- {
				if r.P(1, 4) {
					b := 3
					ret.A = append(ret.A, r.tree(&g, 1, &b, false))
				} else {
					ret.A = append(ret.A, vStr(r.str(sAny)))
				}
			}
			return ret
		case 4:
			ret := vDict()
			n := r.N(13) + long*r.N(2)
			for i := 0; i < n; i++ {
				if i > 20 && !r.P(1, 2*n) || i <= 20 && !r.P(1, 12) {
					ret.M[strconv.Itoa(i)] = r.scalar(&g)
				}
			}
			if r.P(1, 5) {
				ret.M[pick(r, []string{"-1", "00", "01", "x", "+1"})] = vStr("odd")
			}
			return ret
		case 5:
			return vBool(r.P(1, 2))
		}
		b := 4
		return r.tree(&g, 1, &b, false)
	}
	for i := r.N(8); i > 0; i-- {
		d.M[pick(r, c22Names)] = val()
	}
	// runs
	for k := r.N(3); k > 0; k-- {
		p := pick(r, c22Names)
		for i, n := 0, r.size(14)+long; i < n; i++ {
			switch {
			case r.P(1, 20+n):
			case r.P(1, 30+n):
				d.M[fmt.Sprintf("%s.%d", p, i)] = vNull()
			case long > 0:
				d.M[fmt.Sprintf("%s.%d", p, i)] = vStr(strconv.Itoa(i))
			default:
				d.M[fmt.Sprintf("%s.%d", p, i)] = val()
			}
		}
		if r.P(1, 4) {
			d.M[p+pick(r, []string{".-1", ".00", ".", ".x", "0", ".01"})] = vStr("odd")
		}
	}
	return d
}

// dottedNames are paths to inner members, spelled as one name: no names of
// members
func dottedNames(r *Rand, d *V, n int) []string {
	var ret []string
	for ; n > 0 && d.K == KDict && len(d.M) > 0; n-- {
		k := pick(r, sortedKeys(d.M))
		x, name := d.M[k], k
		for {
			if x.K == KDict && len(x.M) > 0 {
				k = pick(r, sortedKeys(x.M))
				x, name = x.M[k], name+pick(r, []string{".", ".", "/", "[", ":"})+k
			} else if x.K == KArr && len(x.A) > 0 {
				j := r.N(len(x.A))
				x, name = x.A[j], name+"."+strconv.Itoa(j)
			} else {
				break
			}
			if r.P(1, 3) {
				break
			}
		}
		if name != k {
			ret = append(ret, name)
		}
	}
	return ret
}

// any document, objects most of the time
func (r *Rand) c22Any() *V {
	if r.P(1, 8) {
		b := 5
		g := genOpt{str: sAny, maxSize: 5, depth: 2}
		return r.tree(&g, 2, &b, r.P(1, 2))
	}
	return r.c22Doc()
}

func strsEqual(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func textList(vs []*V) []string {
	ret := []string{}
	for _, x := range vs {
		ret = append(ret, textOf(x))
	}
	return ret
}

func c22Queries(c *Ctx, i int) {
	r := c.R
	d := r.c22Any()
	o := buildVia(r, d)
	// the printed text of floats depends on how they were made
	if d.any(func(x *V) bool { return x.K == KFloat }) {
		o = build(d)
	}
	fp := docPrint(o)
	c.Note("document %s", fp)
	if d.K != KDict {
		c.Ev("other_documents", 1)
	}
	member := func(k string) *V {
		if d.K != KDict {
			return nil
		}
		return d.M[k]
	}
	names := append([]string{}, c22Names...)
	for k := range d.M {
		names = append(names, k)
	}
	names = append(names[:len(c22Names)], shuffledSorted(r, names[len(c22Names):])...)
	prefixes := append([]string{}, c22Names...)
	if dots := dottedNames(r, d, 3); len(dots) > 0 {
		names = append(names, dots...)
		prefixes = append(prefixes, dots...)
		c.Ev("dotted_names", 1)
	}
	// the first of several names
	for k := 0; k < 3; k++ {
		var ks []string
		n := r.N(5)
		if r.P(1, 30) {
			n += r.N(pick(r, []int{200, 200, 200, 4000}))
		}
		for ; n > 0; n-- {
			ks = append(ks, pick(r, names))
			if r.P(1, 2) && n > 5 {
				ks[len(ks)-1] = pick(r, c22Names) + "-" + strconv.Itoa(n)
			}
		}
		wantS, wantK := "", ""
		for _, n := range ks {
			if x := member(n); x != nil && textOf(x) != "" {
				wantS, wantK = textOf(x), n
				break
			}
		}
		s := J.GetAnyString(o, ks)
		s2, k2 := J.GetAnyString2(o, ks)
		if s != wantS || s2 != wantS || k2 != wantK {
			c.Fail("the first string of %s among %q: %q and (%q, %q), expected (%q, %q)", d.text(), ks, s, s2, k2, wantS, wantK)
		}
		if wantS != "" {
			c.Ev("any_string_found", 1)
		} else {
			c.Ev("any_string_none", 1)
		}
		c.Distinct("any", fp, join(ks))
	}
	// runs of elements
	for k := 0; k < 3; k++ {
		p := pick(r, prefixes)
		var want []*V
		for n := 0; ; n++ {
			x := member(fmt.Sprintf("%s.%d", p, n))
			if x == nil || x.K == KNull {
				break
			}
			want = append(want, x)
		}
		got := J.GetArrayOfPrefix(o, p)
		if len(got) != len(want) {
			c.Fail("the run of %q in %s has %d elements, expected %d", p, d.text(), len(got), len(want))
		}
		for n := range want {
			if m := diff(want[n], observe(got[n]), exact); m != "" {
				c.Fail("element %d of the run of %q in %s: %s", n, p, d.text(), m)
			}
		}
		c.Ev("runs", 1)
		c.Ev("run_elements", len(want))
	}
	// lists of strings
	for k := 0; k < 3; k++ {
		n := pick(r, names)
		x := member(n)
		var want []string
		if x != nil {
			switch x.K {
			case KArr:
				want = textList(x.A)
			case KStr:
				want = []string{x.S}
			case KDict:
				for j := 0; x.M[strconv.Itoa(j)] != nil; j++ {
					want = append(want, textOf(x.M[strconv.Itoa(j)]))
				}
			}
		}
		got := J.GetQueryStringArray(o, n)
		if !strsEqual(got, want) {
			c.Fail("GetQueryStringArray(%s, %q) gives %q, expected %q", d.text(), n, got, want)
		}
		c.Ev("string_lists", 1)
		// and from a list itself
		wantErr := x == nil || x.K == KDict || x.K == KNull
		var w2 []string
		if !wantErr {
			if x.K == KArr {
				w2 = textList(x.A)
			} else {
				w2 = []string{textOf(x)}
			}
		}
		g2, err := J.GetStringArray(o, n)
		if wantErr != (err != nil) || !strsEqual(g2, w2) {
			c.Fail("GetStringArray(%s, %q) gives %q, %v, expected %q", d.text(), n, g2, err, w2)
		}
		if x != nil && x.K == KArr {
			arr, _ := o.GetArray(n)
			if g := J.JSONArray2StringArray(arr); !strsEqual(g, w2) {
				c.Fail("JSONArray2StringArray of %s gives %q, expected %q", x.text(), g, w2)
			}
			m, _ := o.Get(n)
			if g := m.(*J.JSONArray).GetStringArray(); !strsEqual(g, w2) {
				c.Fail("GetStringArray of %s gives %q, expected %q", x.text(), g, w2)
			}
			if g, e := J.GetStringArray(m); e != nil || !strsEqual(g, w2) {
				c.Fail("GetStringArray of %s gives %q, expected %q", x.text(), g, w2)
			}
			if back := J.NewStringArray(w2); back.Length() != len(w2) || !strsEqual(back.GetStringArray(), w2) {
				c.Fail("NewStringArray(%q) gives %s", w2, back.String())
			}
		}
	}
	// booleans
	for k := 0; k < 3; k++ {
		n := pick(r, names)
		def := r.P(1, 2)
		want := def
		if x := member(n); x != nil {
			want = false
			if x.K == KBool {
				want = x.B
			} else {
				switch strings.ToLower(strings.TrimSpace(textOf(x))) {
				case "true", "yes", "on", "1":
					want = true
				}
			}
			c.Ev("booleans", 1)
		} else {
			c.Ev("defaults", 1)
		}
		if got := J.QueryBoolean(o, n, def); got != want {
			c.Fail("QueryBoolean(%s, %q, %v) gives %v", d.text(), n, def, got)
		}
	}
	c.Check(J.GetAnyString(nil, names) == "" && len(J.GetArrayOfPrefix(nil, "a")) == 0 && len(J.GetQueryStringArray(nil, "a")) == 0 && J.QueryBoolean(nil, "a", true) && !J.QueryBoolean(nil, "a", false), "queries of no document find something")
	if now := docPrint(o); now != fp {
		c.Fail("the queries changed the document: %s, was %s", now, fp)
	}
	c.Sample("%s", d.text())
}

func shuffledSorted(r *Rand, s []string) []string {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return shuffled(r, sortedKeys(m))
}

func c22Required(c *Ctx, i int) {
	r := c.R
	d := r.c22Any()
	if d.K != KDict && r.P(1, 2) {
		d = r.c22Doc()
	}
	o := buildVia(r, d)
	fp := docPrint(o)
	var fields []string
	names := append([]string{}, c22Names...)
	keys := sortedKeys(d.M)
	if dots := dottedNames(r, d, 3); len(dots) > 0 {
		names = append(names, dots...)
		names = append(names, dots...)
		c.Ev("dotted_names", 1)
	}
	mode := r.N(3)
	n := r.N(6)
	if r.P(1, 30) {
		n += r.N(pick(r, []int{100, 100, 100, 4000}))
	}
	for ; n > 0; n-- {
		switch {
		case len(keys) > 0 && (mode < 2 || r.P(3, 4)):
			k := pick(r, keys)
			if mode == 0 && d.M[k].K == KNull {
				continue
			}
			fields = append(fields, k)
		default:
			fields = append(fields, pick(r, names))
		}
	}
	err := J.CheckRequiredFields(o, fields)
	what := func() string { return fmt.Sprintf("requiring %q of %s gives %v", fields, d.text(), err) }
	if d.K != KDict {
		if err == nil {
			c.Fail("%s", what())
		}
		c.Ev("other_documents", 1)
		return
	}
	bad := ""
	var cause error
	for _, f := range fields {
		x := d.M[f]
		if x == nil {
			bad, cause = f, J.ErrMissingInputField
			break
		}
		if x.K == KNull {
			bad, cause = f, J.ErrNilInputField
			break
		}
	}
	if cause == nil {
		if err != nil {
			c.Fail("%s", what())
		}
		c.Ev("required_ok", 1)
	} else {
		if err == nil || errors.Cause(err) != cause || !strings.Contains(err.Error(), bad) {
			c.Fail("%s, expected %v for %q", what(), cause, bad)
		}
		// it is the first one that is named, not a later one
		for _, f := range fields {
			if f != bad && len(f) > 2 && !strings.Contains(bad, f) && !strings.Contains(cause.Error(), f) && strings.Contains(strings.Replace(err.Error(), bad, "", 1), f) {
				c.Fail("%s, which names %q", what(), f)
			}
		}
		if cause == J.ErrNilInputField {
			c.Ev("required_null", 1)
		} else {
			c.Ev("required_missing", 1)
		}
	}
	if now := docPrint(o); now != fp {
		c.Fail("checking required fields changed the document: %s, was %s", now, fp)
	}
	c.Distinct(fp, join(fields))
}

func c22Deserialize(c *Ctx, i int) {
	r := c.R
	g := genOpt{str: sUTF8, maxSize: 10, depth: 3, noNeg0: true}
	b := 10
	d := r.tree(&g, 3, &b, r.P(2, 3))
	txt := writeText(r, d, layoutPlain)
	damaged := false
	if (d.K == KDict || d.K == KArr) && r.P(1, 4) {
		txt = txt[:r.N(len(txt))]
		damaged = true
	}
	var typ reflect.Type
	mode := r.N(5)
	wantErr := damaged
	switch mode {
	case 0:
		typ = J.JSONObjectType
	case 1:
		typ = J.JSONDictPtrType
		wantErr = wantErr || d.K != KDict
	case 2:
		typ = J.JSONArrayPtrType
		wantErr = wantErr || d.K != KArr
	case 3:
		typ = pick(r, []reflect.Type{rt[int](), rt[string](), rt[*J.JSONInt](), rt[J.JSONDict](), rt[SerPoint](), rt[struct{}]()})
		wantErr = true
	default:
		typ = rt[*SerPoint]()
		n, s := int64(r.N(1000)), r.str(sUTF8)
		d = &V{K: KDict, M: map[string]*V{"x": vInt(n), "tags": vArr(vStr(s), vStr("t"))}}
		if r.P(1, 2) {
			d.M["name"] = vStr(s)
		}
		txt = writeText(r, d, layoutPlain)
		damaged, wantErr = false, false
		if r.P(1, 4) {
			txt = txt[:r.N(len(txt))]
			damaged, wantErr = true, true
		}
	}
	if d.K == KNull {
		return
	}
	var got gotypes.ISerializable
	var err error
	if p := try(func() { got, err = J.JSONDeserialize(typ, txt) }); p != nil {
		c.Fail("deserializing %s as %s panics: %v", q(txt), typ, p)
	}
	if wantErr {
		if err == nil {
			c.Fail("deserializing %s as %s gives %v without an error", q(txt), typ, got)
		}
		c.Ev("deserialize_error", 1)
		return
	}
	if err != nil {
		c.Fail("deserializing %s as %s: %v", q(txt), typ, err)
	}
	if mode == 4 {
		p, ok := got.(*SerPoint)
		name := "default"
		if x := d.M["name"]; x != nil {
			name = x.S
		}
		if !ok || int64(p.X) != d.M["x"].I || p.Name != name || p.Seen != 1 || len(p.Tags) != 2 || p.Tags[0] != d.M["tags"].A[0].S {
			c.Fail("deserializing %s gives %+v", q(txt), got)
		}
	} else {
		x, ok := got.(J.JSONObject)
		if !ok || mode > 0 && reflect.TypeOf(got) != typ {
			c.Fail("deserializing %s as %s gives a %T", q(txt), typ, got)
		}
		if m := diff(d, observe(x), numeric); m != "" {
			c.Fail("deserializing %s as %s: %s", q(txt), typ, m)
		}
	}
	// once more, after the first result has been changed
	switch x := got.(type) {
	case *J.JSONDict:
		x.Set("changed", J.JSONTrue)
		for _, k := range x.SortedKeys() {
			if l, ok := first(x.Get(k)).(*J.JSONArray); ok {
				l.Add(J.JSONTrue)
			}
		}
	case *J.JSONArray:
		x.Add(J.JSONTrue)
		x.SetAt(0, J.NewString("changed"))
	case *SerPoint:
		x.X, x.Name, x.Tags[0] = -5, "changed", "changed"
	}
	again, err := J.JSONDeserialize(typ, txt)
	c.Check(err == nil, "deserializing %s as %s for the second time: %v", q(txt), typ, err)
	if p, ok := again.(*SerPoint); ok {
		c.Check(int64(p.X) == d.M["x"].I && p.Name != "changed" && len(p.Tags) == 2 && p.Tags[0] == d.M["tags"].A[0].S, "deserializing %s again gives %+v", q(txt), p)
	} else if m := diff(d, observe(again.(J.JSONObject)), numeric); m != "" {
		c.Fail("deserializing %s as %s again, after the first result was changed: %s", q(txt), typ, m)
	}
	c.Ev("deserialized_again", 1)
	c.Ev("deserialized", 1)
	c.Distinct(typ.String(), txt)
}

func first(o J.JSONObject, err error) J.JSONObject { return o }
