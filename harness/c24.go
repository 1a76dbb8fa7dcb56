package main

import (
	"encoding/json"
	"reflect"

	J "yunion.io/x/jsonutils"
)

// C24: updating a filled value touches exactly the named fields

func init() {
	register(&Prop{
		ID:   "C24",
		Rule: "random struct types with nested and embedded structs, lists, maps and pointers, filled with random values and then updated one to five times from partial documents (members left out, null, under another spelling, unknown ones added), or from another value of the type; after every step the whole value compared with the model of the update, and the source with its fingerprint; distinct (type, document) pairs count",
		Assume: []string{
			"interface fields are left to C16",
		},
		W: []Workload{
			twinsWorkload(),
			{Name: "documents", N: counts(40000, 600000), Run: c24Documents},
			{Name: "update", N: counts(30000, 450000), Run: c24Update},
		},
		MinEv: map[string]int64{"updates": 100000, "members_given": 150000, "members_left_out": 80000, "null_members": 5000, "other_names": 2000, "unknown_names": 20000, "lists_replaced": 20000, "map_members": 10000, "embedded_members": 5000, "self_updates": 2000, "nested_structs": 10000, "lists_kept": 30000},
	})
}

var c24Types = &tOpt{depth: 3, strOpt: true}

func c24Type(c *Ctx, i int) *T {
	pool := 1500
	if c.tier {
		pool = 20000
	}
	return poolType(c, "c24", i%pool, c24Types)
}

// keptList is a list or document that the caller keeps from before an update
type keptList struct {
	v  reflect.Value
	fp string
}

// keepLists takes hold of the lists and documents in v, as a caller does who keeps them for
// later use
func keepLists(v reflect.Value, depth int, out []keptList) []keptList {
	if depth > 20 || len(out) > 50 {
		return out
	}
	if v.CanInterface() {
		if _, ok := v.Interface().(J.JSONObject); ok {
			if k := v.Kind(); (k == reflect.Ptr || k == reflect.Interface) && !v.IsNil() {
				cp := reflect.New(v.Type()).Elem()
				cp.Set(v)
				out = append(out, keptList{cp, show(cp)})
			}
			return out
		}
	}
	if reflect.PtrTo(v.Type()).Implements(stdUnmarshalerType) {
		// such a type, like json.RawMessage, fills itself
		return out
	}
	if v.Type().PkgPath() != "" && v.Type().Name() != "" && v.Kind() == reflect.Struct && reflect.PtrTo(v.Type()).Implements(objType) {
		return out
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			out = keepLists(v.Elem(), depth+1, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				out = keepLists(v.Field(i), depth+1, out)
			}
		}
	case reflect.Array, reflect.Slice:
		if v.Kind() == reflect.Slice && v.Len() > 0 {
			cp := reflect.New(v.Type()).Elem()
			cp.Set(v)
			out = append(out, keptList{cp, show(cp)})
		}
		for i := 0; i < v.Len(); i++ {
			out = keepLists(v.Index(i), depth+1, out)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			out = keepLists(v.MapIndex(k), depth+1, out)
		}
	}
	return out
}

var stdUnmarshalerType = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()

var objType = reflect.TypeOf((*J.JSONObject)(nil)).Elem()

// checkKept checks that kept lists are as they were
func (c *Ctx) checkKept(kept []keptList, what string, args ...interface{}) {
	for _, k := range kept {
		if now := show(k.v); now != k.fp {
			c.Fail(what+": a list or document that was kept from before is now %s, was %s", append(args, clip(now, 1000), clip(k.fp, 1000))...)
		}
	}
	c.Ev("lists_kept", len(kept))
}

// tally counts what a document asks of a type
func (c *Ctx) tally(t *T, d *V) {
	switch {
	case d.K == KNull:
		c.Ev("null_members", 1)
	case t.K == tPtr:
		c.tally(t.Elem, d)
	case t.K == tSlice && d.K == KArr:
		c.Ev("lists_replaced", 1)
		for _, x := range d.A {
			c.tally(t.Elem, x)
		}
	case t.K == tMap && d.K == KDict:
		c.Ev("map_members", len(d.M))
	case t.K == tStruct && d.K == KDict:
		c.Ev("nested_structs", 1)
		n := 0
		for _, k := range d.keys() {
			f, ok := t.field(k)
			if !ok {
				c.Ev("unknown_names", 1)
				continue
			}
			n++
			if k != f.f.Name {
				c.Ev("other_names", 1)
			}
			if len(f.path) > 1 {
				c.Ev("embedded_members", 1)
			}
			c.tally(f.f.T, d.M[k])
		}
		c.Ev("members_given", n)
		c.Ev("members_left_out", len(t.flat())-n)
	}
}

func c24Documents(c *Ctx, i int) {
	r := c.R
	t := c24Type(c, i)
	vo := (&vOpt{str: sAny, fill: 8, noBigUint: true, noNilElem: true}).large(r, 100)
	if vo.big > 1500 {
		vo.big = 1500
	}
	vo2 := *vo
	want, got := reflect.New(t.RT), reflect.New(t.RT)
	s1, s2 := r.Uint64(), r.Uint64()
	if r.P(9, 10) {
		seeded(s1, s2).val(t, vo, want.Elem(), true)
		seeded(s1, s2).val(t, &vo2, got.Elem(), true)
	}
	steps := 1 + r.N(3)
	if r.P(1, 10) {
		steps = 5
	}
	for s := 0; s < steps; s++ {
		src := reflect.New(t.RT)
		r.val(t, vo, src.Elem(), true)
		d := r.partial(t, resolve(refMarshal(t, src.Elem(), nil, false)), pick(r, []int{1, 3, 5, 8, 10}))
		if hasNaN(d) {
			return
		}
		o := build(d)
		if r.P(1, 3) {
			o = buildVia(r, d)
		} else if r.P(1, 3) {
			p, err := J.ParseString(o.String())
			c.Check(err == nil, "%v", err)
			// a document as read
			d, o = observe(p), p
		}
		before := show(got.Elem())
		fp := docPrint(o)
		var kept []keptList
		if r.P(1, 2) {
			kept = keepLists(got.Elem(), 0, nil)
		}
		refApply(t, want.Elem(), d, o)
		var err error
		p := try(func() {
			if r.P(1, 6) {
				e := J.NewDict()
				e.Set("k", o)
				err = e.Unmarshal(got.Interface(), "k")
			} else {
				err = o.Unmarshal(got.Interface())
			}
		})
		if p != nil || err != nil {
			c.Fail("step %d: updating %s, which holds %s, from %s: %v %v", s, t, before, fp, p, err)
		}
		if a, b := show(want.Elem()), show(got.Elem()); a != b {
			c.Fail("step %d: updating %s, which holds %s, from %s gives %s, expected %s", s, t, clip(before, 1500), clip(fp, 1500), clip(b, 1500), clip(a, 1500))
		}
		c.checkKept(kept, "step %d: updating %s from %s", s, t, clip(fp, 1500))
		if docPrint(o) != fp {
			c.Fail("step %d: updating %s changed the document %s to %s", s, t, fp, docPrint(o))
		}
		c.Ev("updates", 1)
		c.tally(t, d)
		c.Distinct(t.RT.String(), fp)
		c.Sample("%s", clip(fp, 300))
	}
}

func c24Update(c *Ctx, i int) {
	r := c.R
	t := c24Type(c, i)
	if t.K == tPtr {
		return
	}
	vo := (&vOpt{str: sAny, fill: 8, noBigUint: true, noNilElem: true}).large(r, 100)
	if vo.big > 1500 {
		vo.big = 1500
	}
	vo2 := *vo
	want, got := reflect.New(t.RT), reflect.New(t.RT)
	s1, s2 := r.Uint64(), r.Uint64()
	seeded(s1, s2).val(t, vo, want.Elem(), true)
	seeded(s1, s2).val(t, &vo2, got.Elem(), true)
	for s := 0; s < 1+r.N(3); s++ {
		src := reflect.New(t.RT)
		self := r.P(1, 8)
		if self {
			src = got
		} else {
			r.val(t, &vOpt{str: sAny, fill: pick(r, []int{1, 4, 8}), noBigUint: true, noNilElem: true}, src.Elem(), true)
		}
		d := resolve(refMarshal(t, src.Elem(), nil, true))
		before, fp := show(got.Elem()), show(src.Elem())
		var kept []keptList
		if !self && r.P(1, 2) {
			kept = keepLists(got.Elem(), 0, nil)
		}
		refApply(t, want.Elem(), d, build(d))
		var err error
		p := try(func() {
			if r.P(1, 2) {
				err = J.Update(got.Interface(), src.Interface())
			} else {
				err = J.Update(got.Interface(), src.Elem().Interface())
			}
		})
		if p != nil || err != nil {
			c.Fail("step %d: Update of %s, which holds %s, from %s: %v %v", s, t, before, fp, p, err)
		}
		if a, b := show(want.Elem()), show(got.Elem()); a != b {
			c.Fail("step %d: Update of %s, which holds %s, from %s gives %s, expected %s", s, t, clip(before, 1500), clip(fp, 1500), clip(b, 1500), clip(a, 1500))
		}
		c.checkKept(kept, "step %d: Update of %s from %s", s, t, clip(fp, 1500))
		if self {
			c.Ev("self_updates", 1)
		} else if now := show(src.Elem()); now != fp {
			c.Fail("step %d: Update of %s changed the source: %s, was %s", s, t, now, fp)
		}
		c.Ev("updates", 1)
		c.tally(t, d)
		c.Distinct(t.RT.String(), before, fp)
	}
}
