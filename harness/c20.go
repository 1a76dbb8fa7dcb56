package main

import (
	"fmt"
	"reflect"
	"strings"
	"sync/atomic"
	"time"

	J "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

// C20: renamed fields stay in step, and hooks run after filling

func init() {
	register(&Prop{
		ID:   "C20",
		Rule: "struct types with random replacement graphs over their fields (chains, trees, loops, self loops, missing and ignored ends, declared on the field or on an embedded struct), values and documents of them, against a model of the chains; and hooked types nested in fields, pointers, lists, maps, arrays and embedded structs, filled from fitting and misfitting documents, whose hooks log a sequence number and what they saw; distinct (type, document) pairs count",
		Assume: []string{
			"documents have at most one name of a chain unless they were written by Marshal; a hook promoted from an embedded struct may run more than once, and the last run counts; a hook promoted from a struct embedded by a pointer needs a member of that struct in the document (known finding K5)",
		},
		W: []Workload{
			twinsWorkload(),
			{Name: "written", N: counts(60000, 900000), Run: c20Written},
			{Name: "filled", N: counts(60000, 900000), Run: c20Filled},
			{Name: "hooks", N: counts(40000, 600000), Run: c20Hooks},
		},
		MinEv: map[string]int64{"replaced_written": 30000, "replaced_left_out": 20000, "loops": 8000, "chains_of_3": 8000, "old_names_filled": 30000, "chain_fields_filled": 20000, "hooks_ran": 100000, "hooks_beside_misfit": 10000, "hooks_embedded": 10000},
		Probe: map[string]func() (bool, string){"K5": func() (bool, string) {
			x := HPtrProm{}
			p := try(func() { build(&V{K: KDict, M: map[string]*V{"w": vInt(1)}}).Unmarshal(&x) })
			return p != nil, fmt.Sprint("panics: ", p)
		}},
	})
}

var c20names = []string{"old", "new", "first", "second", "a_name", "b_name", "last", "size_mb", "mem", "zeta", "beta", "n9"}

// renameType makes a struct type whose fields replace each other
func (r *Rand) renameType(depth int) *T {
	var e *T
	switch r.N(9) {
	case 0, 1, 2:
		e = &T{K: tStr, RT: rt[string]()}
	case 3:
		e = pick(r, leaves)
	case 4:
		e = pick(r, []*T{timeType, triType})
	case 5:
		e = sliceOf(pick(r, leaves))
	case 6:
		e = ptrTo(pick(r, leaves))
	case 7:
		if depth > 0 {
			e = r.renameType(depth - 1)
			switch r.N(4) {
			case 0:
				e = ptrTo(e)
			case 1:
				e = sliceOf(e)
			}
			break
		}
		fallthrough
	default:
		e = &T{K: tMap, RT: rt[map[string]int](), Elem: &T{K: tInt, RT: rt[int]()}}
	}
	n := 2 + r.N(5)
	if r.P(1, 8) {
		n = 7 + r.N(5)
	}
	names := shuffled(r, c20names)[:n]
	ret := &T{K: tStruct}
	var fl []*Fld
	for i := 0; i < n; i++ {
		f := &Fld{Go: fmt.Sprintf("F%d", i), Snake: fmt.Sprintf("f%d", i), Name: names[i], T: e, fopts: fopts{omitEmpty: true}}
		var opts []string
		if r.P(1, 3) {
			f.omitEmpty = false
			opts = append(opts, "allowempty")
		}
		if r.P(1, 3) {
			f.omitZero = true
			opts = append(opts, "omitzero")
		}
		if r.P(1, 3) {
			f.omitFalse = true
			opts = append(opts, "omitfalse")
		}
		f.Tag = fmt.Sprintf(`json:"%s"`, join(append([]string{f.Name}, opts...)))
		if r.P(1, 12) {
			f.Ignore = true
			f.Tag = `json:"-"`
		}
		fl = append(fl, f)
	}
	// the replacement graph
	dens := pick(r, []int{3, 5, 7, 9})
	shape := r.N(4)
	for i, f := range fl {
		if r.N(10) >= dens {
			continue
		}
		switch shape {
		case 0: // chain
			f.Dep = names[(i+1)%n]
			if i == n-1 && r.P(2, 3) {
				f.Dep = ""
			}
		case 1: // star
			f.Dep = names[n-1]
			if i == n-1 && r.P(4, 5) {
				f.Dep = ""
			}
		default:
			f.Dep = pick(r, names)
			if r.P(1, 10) {
				f.Dep = "nowhere"
			}
		}
	}
	// some of them live in an embedded struct
	cut := n
	if r.P(1, 2) {
		cut = r.N(n)
	}
	declare := func(f *Fld) {
		if f.Dep != "" {
			f.Tag += fmt.Sprintf(` yunion-deprecated-by:"%s"`, f.Dep)
		}
	}
	var sf []reflect.StructField
	mk := func(f *Fld) reflect.StructField {
		return reflect.StructField{Name: f.Go, Type: f.T.RT, Tag: reflect.StructTag(f.Tag)}
	}
	for _, f := range fl[:cut] {
		declare(f)
		sf = append(sf, mk(f))
		ret.F = append(ret.F, f)
	}
	if cut < n {
		emb := &T{K: tStruct, F: fl[cut:]}
		var outer []string
		all := r.P(1, 8)
		var est []reflect.StructField
		for _, f := range emb.F {
			switch {
			case all:
				// every field of the part is replaced by one
				if r.P(1, 2) {
					declare(f)
				}
				f.Dep = fl[0].Name
			case f.Dep != "" && !f.Ignore && r.P(1, 2):
				// declared where the part is embedded, over its own
				outer = append(outer, fmt.Sprintf(`%s->yunion-deprecated-by:"%s"`, f.Name, f.Dep))
				if r.P(1, 3) {
					f.Tag += fmt.Sprintf(` yunion-deprecated-by:"%s"`, pick(r, names))
				}
			default:
				declare(f)
			}
			est = append(est, mk(f))
		}
		if all {
			outer = []string{fmt.Sprintf(`yunion-deprecated-by:"%s"`, fl[0].Name)}
		}
		emb.RT = reflect.StructOf(est)
		et := emb
		if r.P(1, 3) {
			et = ptrTo(emb)
		}
		ef := &Fld{Go: "Part", Snake: "part", Name: "part", Embed: true, T: et, Tag: strings.Join(outer, " ")}
		pos := r.N(len(sf) + 1)
		sf = append(sf[:pos], append([]reflect.StructField{{Name: "Part", Type: et.RT, Anonymous: true, Tag: reflect.StructTag(ef.Tag)}}, sf[pos:]...)...)
		ret.F = append(ret.F[:pos:pos], append([]*Fld{ef}, ret.F[pos:]...)...)
	}
	ret.RT = reflect.StructOf(sf)
	return ret
}

func c20Type(c *Ctx, i int) *T {
	pool := 3000
	if c.tier {
		pool = 40000
	}
	key := fmt.Sprintf("%d/rename/%d", c.seed, i%pool)
	if t, ok := typePools.Load(key); ok {
		return t.(*T)
	}
	x, _ := typePools.LoadOrStore(key, newRand("type", key).renameType(1))
	return x.(*T)
}

// chainOf lists the fields a member fills
func (t *T) chainOf(name string) []*Fld {
	var ret []*Fld
	seen := map[*Fld]bool{}
	for name != "" {
		f, ok := t.field(name)
		if !ok || seen[f.f] {
			break
		}
		seen[f.f] = true
		ret = append(ret, f.f)
		name = f.f.Dep
	}
	return ret
}

func (c *Ctx) countChains(t *T, ref *V) {
	dep := map[string]string{}
	for _, f := range t.flat() {
		if !f.f.Ignore && f.f.Dep != "" {
			dep[f.f.Name] = f.f.Dep
		}
	}
	for name := range dep {
		if ref.M[name] != nil {
			c.Ev("replaced_written", 1)
		} else {
			c.Ev("replaced_left_out", 1)
		}
		end, steps := name, 0
		for dep[end] != "" && steps <= len(dep) {
			end = dep[end]
			steps++
		}
		if steps > len(dep) {
			c.Ev("loops", 1)
		} else if steps >= 3 {
			c.Ev("chains_of_3", 1)
		}
	}
}

func (t *T) deps() string {
	var ret []string
	for _, f := range t.flat() {
		ret = append(ret, fmt.Sprintf("%s->%s(%v)", f.f.Name, f.f.Dep, f.f.Ignore))
	}
	return strings.Join(ret, " ")
}

func c20Written(c *Ctx, i int) {
	r := c.R
	t := c20Type(c, i)
	v := reflect.New(t.RT)
	r.val(t, &vOpt{str: sAny, fill: pick(r, []int{2, 5, 9}), noBigUint: true, embPtr: true}, v.Elem(), true)
	before := show(v.Elem())
	for _, omit := range []bool{true, false} {
		ref := refMarshal(t, v.Elem(), nil, omit)
		var o J.JSONObject
		name := "Marshal"
		if p := try(func() {
			if omit {
				o = J.Marshal(v.Interface())
			} else {
				name = "MarshalAll"
				o = J.MarshalAll(v.Elem().Interface())
			}
		}); p != nil {
			c.Fail("%s of %s panics: %v", name, t, p)
		}
		if d := diffRef(ref, observe(o), "$"); d != "" {
			c.Fail("%s of %s (replacements %s) with value %s gives %s: %s", name, t, t.deps(), before, o.String(), d)
		}
		c.countChains(t, ref)
		if !omit {
			continue
		}
		// and back: the fields of a chain come back in step
		doc := resolve(ref)
		want, got := reflect.New(t.RT), reflect.New(t.RT)
		refApply(t, want.Elem(), doc, build(doc))
		if err := o.Unmarshal(got.Interface()); err != nil {
			c.Fail("%s does not unmarshal into its type %s: %v", o.String(), t, err)
		}
		if a, b := show(want.Elem()), show(got.Elem()); a != b {
			c.Fail("unmarshalling %s into %s (replacements %s): %s expected, got %s", o.String(), t, t.deps(), a, b)
		}
		c.Distinct(t.RT.String(), o.String())
		c.Sample("replacements %s: %s", t.deps(), clip(o.String(), 300))
	}
	c.Check(show(v.Elem()) == before, "marshalling changed the value of %s", t)
}

func c20Filled(c *Ctx, i int) {
	r := c.R
	t := c20Type(c, i)
	d := vDict()
	used := map[*Fld]bool{}
	vo := &vOpt{str: sAny, fill: 9, noBigUint: true, embPtr: true}
	for _, f := range shuffled(r, t.flat()) {
		if f.f.Ignore || len(d.M) > 0 && r.P(1, 3) {
			continue
		}
		ch := t.chainOf(f.f.Name)
		clash := false
		for _, x := range ch {
			clash = clash || used[x]
		}
		if clash {
			continue
		}
		for _, x := range ch {
			used[x] = true
		}
		x := reflect.New(f.f.T.RT).Elem()
		r.val(f.f.T, vo, x, r.P(4, 5))
		name := f.f.Name
		if al := t.aliases(f.f); len(al) > 0 && r.P(1, 8) {
			name = pick(r, al)
		}
		d.M[name] = resolve(refMarshal(f.f.T, x, nil, false))
		if f.f.Dep != "" {
			c.Ev("old_names_filled", 1)
			c.Ev("chain_fields_filled", len(ch)-1)
		}
	}
	if r.P(1, 3) {
		d.M["zz"] = vInt(1)
	}
	want, got := reflect.New(t.RT), reflect.New(t.RT)
	if r.P(1, 2) {
		s1, s2 := r.Uint64(), r.Uint64()
		seeded(s1, s2).val(t, vo, want.Elem(), true)
		seeded(s1, s2).val(t, vo, got.Elem(), true)
	}
	before := show(got.Elem())
	o := buildVia(r, d)
	refApply(t, want.Elem(), d, build(d))
	var err error
	if p := try(func() { err = o.Unmarshal(got.Interface()) }); p != nil {
		c.Fail("unmarshalling %s into %s panics: %v", d.text(), t, p)
	}
	c.Check(err == nil, "unmarshalling %s into %s: %v", d.text(), t, err)
	if a, b := show(want.Elem()), show(got.Elem()); a != b {
		c.Fail("unmarshalling %s into %s (replacements %s) that held %s: %s expected, got %s", d.text(), t, t.deps(), before, a, b)
	}
	c.Distinct(t.RT.String(), d.text())
}

// Hooks

// hookState is what a hook leaves behind: it is not part of the fingerprint
// of a value
type hookState struct {
	Seen string
	At   int64
}

var hookClock int64

func (h *hookState) note(owner interface{}) {
	h.Seen = show(reflect.ValueOf(owner).Elem())
	h.At = atomic.AddInt64(&hookClock, 1)
}

type HLeaf struct {
	N  int       `json:"n"`
	S  string    `json:"s"`
	Bs []bool    `json:"bs"`
	H  hookState `json:"-"`
}

func (h *HLeaf) AfterUnmarshal() { h.H.note(h) }

type HNest struct {
	X  int                 `json:"x"`
	L  []HLeaf             `json:"l"`
	M  map[string]HLeaf    `json:"m"`
	Q  map[string]*HLeaf   `json:"q"`
	P  *HLeaf              `json:"p"`
	A  [2]HLeaf            `json:"a"`
	PP **HLeaf             `json:"pp"`
	K  map[string][]HLeaf  `json:"k"`
	T  time.Time           `json:"t"`
	Z  tristate.TriState   `json:"z"`
	B  []*HBase            `json:"b"`
	J  map[NStr]HEmb       `json:"j"`
	Y  float64             `json:"y"`
	H  hookState           `json:"-"`
	U  struct{ V HLeaf }   `json:"u"`
	W  []struct{ V HBase } `json:"w"`
}

func (h *HNest) AfterUnmarshal() { h.H.note(h) }

type HBase struct {
	Id   int               `json:"id"`
	Name string            `json:"name"`
	Tags map[string]string `json:"tags"`
	H    hookState         `json:"-"`
}

func (h *HBase) AfterUnmarshal() { h.H.note(h) }

// own hook beside an embedded one
type HEmb struct {
	HBase
	Y    string    `json:"y"`
	Leaf HLeaf     `json:"leaf"`
	H    hookState `json:"-"`
}

func (h *HEmb) AfterUnmarshal() { h.H.note(h) }

// promoted hook
type HProm struct {
	Z uint16 `json:"z"`
	HBase
}

// embedded by pointer, own hook
type HPtrEmb struct {
	*HBase
	W int       `json:"w"`
	H hookState `json:"-"`
}

func (h *HPtrEmb) AfterUnmarshal() { h.H.note(h) }

// promoted through a pointer
type HPtrProm struct {
	*HBase
	W int `json:"w"`
}

// two levels
type HDeep struct {
	A int8 `json:"a"`
	HEmb
	V []HProm   `json:"v"`
	H hookState `json:"-"`
}

func (h *HDeep) AfterUnmarshal() { h.H.note(h) }

// two embedded parts with hooks, none of its own
type HTwo struct {
	HBase
	HNest
	Last bool `json:"last"`
}

type HPlain struct {
	Deep HDeep              `json:"deep"`
	Ls   []HEmb             `json:"ls"`
	Mp   map[string]HPtrEmb `json:"mp"`
	Two  *HTwo              `json:"two"`
	N    int                `json:"n"`
}

var hookTypes = []reflect.Type{rt[HLeaf](), rt[HNest](), rt[HBase](), rt[HEmb](), rt[HProm](), rt[HPtrEmb](), rt[HDeep](), rt[HTwo](), rt[HPlain](), rt[HPtrProm](), rt[[]HEmb](), rt[map[string]*HDeep](), rt[[2]HNest](), rt[*HEmb]()}

// typeDesc makes the description of a static type
func typeDesc(t reflect.Type) *T {
	ret := &T{RT: t}
	switch t {
	case rt[time.Time]():
		ret.K = tTime
		return ret
	case rt[tristate.TriState]():
		ret.K = tTri
		return ret
	}
	switch t.Kind() {
	case reflect.Struct:
		ret.K = tStruct
		for i := 0; i < t.NumField(); i++ {
			sf := t.Field(i)
			f := &Fld{Go: sf.Name, Snake: strings.ToLower(sf.Name), Name: strings.ToLower(sf.Name), fopts: fopts{omitEmpty: true}, Embed: sf.Anonymous, Tag: string(sf.Tag)}
			switch n := sf.Tag.Get("json"); n {
			case "-":
				f.Ignore = true
				f.T = &T{RT: sf.Type, K: tBool}
			case "":
				f.T = typeDesc(sf.Type)
			default:
				f.Name = n
				f.T = typeDesc(sf.Type)
			}
			ret.F = append(ret.F, f)
		}
	case reflect.Slice:
		ret.K, ret.Elem = tSlice, typeDesc(t.Elem())
	case reflect.Array:
		ret.K, ret.Elem, ret.N = tArray, typeDesc(t.Elem()), t.Len()
	case reflect.Map:
		ret.K, ret.Elem = tMap, typeDesc(t.Elem())
	case reflect.Ptr:
		ret.K, ret.Elem = tPtr, typeDesc(t.Elem())
	case reflect.String:
		ret.K = tStr
	case reflect.Bool:
		ret.K = tBool
	case reflect.Float32, reflect.Float64:
		ret.K = tF64
	case reflect.Uint16, reflect.Uint8, reflect.Uint:
		ret.K = tUint
	default:
		ret.K = tInt
	}
	return ret
}

var hookTs = func() []*T {
	var ret []*T
	for _, t := range hookTypes {
		ret = append(ret, typeDesc(t))
	}
	return ret
}()

// hookDoc makes a document for a hooked type, with members that misfit
func (r *Rand) hookDoc(t *T, bad map[*V]bool, wild, depth int) *V {
	if wild > 0 && r.N(40) < wild {
		if x := r.misfit(t); x != nil {
			y := *x
			bad[&y] = true
			return &y
		}
	}
	if depth <= 0 && (t.K == tSlice || t.K == tMap || t.K == tPtr) {
		return vNull()
	}
	switch t.K {
	case tSlice, tArray:
		n := r.N(4)
		if t.K == tArray {
			n = t.N
		}
		ret := vArr()
		for i := 0; i < n; i++ {
			ret.A = append(ret.A, r.hookDoc(t.Elem, bad, wild, depth-1))
		}
		return ret
	case tMap:
		ret := vDict()
		for i := r.N(4); i > 0; i-- {
			ret.M[r.key(sUTF8)] = r.hookDoc(t.Elem, bad, wild, depth-1)
		}
		return ret
	case tPtr:
		return r.hookDoc(t.Elem, bad, wild, depth)
	case tStruct:
		ret := vDict()
		for _, f := range t.flat() {
			if !f.f.Ignore && r.P(1, 2) {
				ret.M[f.f.Name] = r.hookDoc(f.f.T, bad, wild, depth-1)
			}
		}
		if t.RT == rt[HPtrProm]() {
			ret.M["id"] = vInt(7)
		}
		return ret
	case tTri, tBool:
		return vBool(r.P(1, 2))
	case tTime:
		return vStr("2020-01-02T03:04:05Z")
	case tStr:
		return vStr(r.str(sUTF8))
	}
	return vInt(int64(r.N(100)))
}

type hookWalk struct {
	c     *Ctx
	start int64
	bad   map[*V]bool
	doc   string
	wild  bool
}

// visit checks the hooks of everything a document was stored into; it tells
// whether storing it failed
func (w *hookWalk) visit(t *T, v reflect.Value, d *V, below *int64, path string) bool {
	if w.bad[d] {
		return true
	}
	if d.K == KNull {
		return false
	}
	failed := false
	switch t.K {
	case tSlice, tArray:
		if v.Len() != len(d.A) {
			w.c.Fail("unmarshalling %s: %s has %d elements", w.doc, path, v.Len())
		}
		for i := range d.A {
			if w.visit(t.Elem, v.Index(i), d.A[i], below, fmt.Sprintf("%s[%d]", path, i)) {
				return true
			}
		}
	case tMap:
		for _, k := range d.keys() {
			e := v.MapIndex(reflect.ValueOf(k).Convert(v.Type().Key()))
			if w.fails(t.Elem, d.M[k]) {
				return true
			}
			if !e.IsValid() {
				w.c.Fail("unmarshalling %s: %s has no entry %q", w.doc, path, k)
			}
			w.visit(t.Elem, e, d.M[k], below, fmt.Sprintf("%s[%q]", path, k))
		}
	case tPtr:
		if v.IsNil() {
			w.c.Fail("unmarshalling %s: %s is nil", w.doc, path)
		}
		return w.visit(t.Elem, v.Elem(), d, below, path)
	case tStruct:
		var inner int64
		for _, f := range t.flat() {
			x := d.M[f.f.Name]
			if f.f.Ignore || x == nil {
				continue
			}
			fv, ok := at(v, f.path, false)
			if !ok {
				w.c.Fail("unmarshalling %s: the embedded struct of %s.%s is nil", w.doc, path, f.f.Go)
			}
			if w.visit(f.f.T, fv, x, &inner, path+"."+f.f.Go) {
				failed = true
			}
		}
		last := w.hooks(t, v, inner, path, false, failed)
		if last > *below {
			*below = last
		}
	}
	return failed
}

func (w *hookWalk) fails(t *T, d *V) bool {
	if w.bad[d] {
		return true
	}
	for _, x := range d.A {
		if w.fails(nil, x) {
			return true
		}
	}
	for _, x := range d.M {
		if w.fails(nil, x) {
			return true
		}
	}
	return false
}

// hooks checks the hooks of a struct and of its embedded parts
func (w *hookWalk) hooks(t *T, v reflect.Value, inner int64, path string, embedded, failed bool) int64 {
	last := inner
	for i, f := range t.F {
		if !f.Embed {
			continue
		}
		e, fv := f.T, v.Field(i)
		if e.K == tPtr {
			if fv.IsNil() {
				continue
			}
			e, fv = e.Elem, fv.Elem()
		}
		if n := w.hooks(e, fv, inner, path+"."+f.Go, true, failed); n > last {
			last = n
		}
	}
	h := reflect.Value{}
	for i, f := range t.F {
		if f.Go == "H" {
			h = v.Field(i)
		}
	}
	if !h.IsValid() {
		return last
	}
	st := h.Interface().(hookState)
	if st.At <= w.start {
		w.c.Fail("unmarshalling %s: the hook of %s (%s) did not run", w.doc, path, t.RT)
	}
	if st.At <= last {
		w.c.Fail("unmarshalling %s: the hook of %s (%s) ran before the one of a part of it", w.doc, path, t.RT)
	}
	if now := show(v); st.Seen != now {
		w.c.Fail("unmarshalling %s: the hook of %s (%s) saw %s, the final content is %s", w.doc, path, t.RT, st.Seen, now)
	}
	w.c.Ev("hooks_ran", 1)
	if embedded {
		w.c.Ev("hooks_embedded", 1)
	}
	if failed {
		w.c.Ev("hooks_beside_misfit", 1)
	}
	return st.At
}

func c20Hooks(c *Ctx, i int) {
	r := c.R
	t := hookTs[i%len(hookTs)]
	v := reflect.New(t.RT)
	for k := 0; k < 1+r.N(3); k++ {
		bad := map[*V]bool{}
		wild := pick(r, []int{0, 0, 1, 3, 8})
		d := r.hookDoc(t, bad, wild, 4)
		for bad[d] {
			d = r.hookDoc(t, bad, wild, 4)
		}
		o := build(d)
		if r.P(1, 3) {
			o, _ = J.ParseString(o.String())
		}
		w := &hookWalk{c: c, start: atomic.LoadInt64(&hookClock), bad: bad, doc: d.text() + " into " + t.RT.String()}
		var err error
		if p := try(func() { err = o.Unmarshal(v.Interface()) }); p != nil {
			c.Fail("unmarshalling %s panics: %v", w.doc, p)
		}
		var top int64
		failed := w.visit(t, v.Elem(), d, &top, "$")
		c.Check(failed == (err != nil), "unmarshalling %s: error %v, members that misfit: %v", w.doc, err, failed)
		c.Distinct(t.RT.String(), d.text())
	}
}
