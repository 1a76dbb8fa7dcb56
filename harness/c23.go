package main

import (
	"fmt"
	"math"
	"reflect"

	J "yunion.io/x/jsonutils"
)

// C23: conversion to plain Go values is faithful and detached

func init() {
	register(&Prop{
		ID:   "C23",
		Rule: "random documents built along random routes (incremental edits, parsing, marshalling), converted with Interface(), the result walked in step with the document model; then the lists and maps of the result edited at random and the document compared with its fingerprint, and the document edited and the result compared with a copy taken before; and the result marshalled back; and documents of linked Go objects, alone and several in one document, whose result is walked in step with the objects; distinct documents count",
		Assume: []string{
			"a not-a-number is left out of the comparison with the marshalled form",
		},
		W: []Workload{
			{Name: "convert", N: counts(120000, 1800000), Run: c23Convert},
			{Name: "large", N: counts(300, 3000), Run: c23Large},
			{Name: "graphs", N: counts(6000, 100000), Run: c23Graphs},
			{Name: "marshalled", N: counts(20000, 300000), Run: c23Marshalled},
		},
		MinEv: map[string]int64{"values_compared": 500000, "result_edits": 100000, "document_edits": 100000, "marshalled_back": 80000, "nulls": 10000, "empty_containers": 10000, "shared_parts": 2000, "graph_places": 50000, "graph_returns": 5000},
	})
}

// plainDiff walks a plain value in step with the document model
func plainDiff(c *Ctx, v *V, x interface{}, path string) string {
	c.Ev("values_compared", 1)
	bad := func() string {
		return fmt.Sprintf("%s: %s expected, got %T %v", path, v.brief(), x, clip(fmt.Sprint(x), 200))
	}
	switch v.K {
	case KNull:
		c.Ev("nulls", 1)
		if x != nil {
			return bad()
		}
	case KBool:
		if y, ok := x.(bool); !ok || y != v.B {
			return bad()
		}
	case KInt:
		if y, ok := x.(int64); !ok || y != v.I {
			return bad()
		}
	case KFloat:
		if y, ok := x.(float64); !ok || math.Float64bits(y) != math.Float64bits(v.F) && !(y != y && v.F != v.F) {
			return bad()
		}
	case KStr:
		if y, ok := x.(string); !ok || y != v.S {
			return bad()
		}
	case KArr:
		y, ok := x.([]interface{})
		if !ok || len(y) != len(v.A) || y == nil {
			return bad()
		}
		if len(y) == 0 {
			c.Ev("empty_containers", 1)
		}
		for i := range y {
			if d := plainDiff(c, v.A[i], y[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case KDict:
		y, ok := x.(map[string]interface{})
		if !ok || len(y) != len(v.M) || y == nil {
			return bad()
		}
		if len(y) == 0 {
			c.Ev("empty_containers", 1)
		}
		for k, e := range v.M {
			z, ok := y[k]
			if !ok {
				return fmt.Sprintf("%s: member %q is missing", path, clip(k, 80))
			}
			if d := plainDiff(c, e, z, path+"."+clip(k, 60)); d != "" {
				return d
			}
		}
	default:
		return bad()
	}
	return ""
}

func scribblePlain(r *Rand, x interface{}, n *int) interface{} {
	switch y := x.(type) {
	case []interface{}:
		for i := range y {
			y[i] = scribblePlain(r, y[i], n)
			if r.P(1, 2) {
				y[i] = "scribble"
				*n++
			}
		}
		_ = append(y, "appended")
		_ = append(y[:len(y):cap(y)], "appended")
		return y
	case map[string]interface{}:
		for _, k := range sortedKeys(y) {
			y[k] = scribblePlain(r, y[k], n)
			if r.P(1, 3) {
				delete(y, k)
				*n++
			}
		}
		y["scribble"] = int64(r.N(9))
		*n++
		return y
	}
	return x
}

// scribbleDoc edits every container of a document
func scribbleDoc(r *Rand, o J.JSONObject, n *int) {
	switch y := o.(type) {
	case *J.JSONDict:
		for _, k := range y.SortedKeys() {
			m, _ := y.Get(k)
			scribbleDoc(r, m, n)
			switch r.N(3) {
			case 0:
				y.Set(k, J.NewString("scribble"))
			case 1:
				y.Remove(k)
			}
		}
		y.Set("scribble", J.NewInt(1))
		*n++
	case *J.JSONArray:
		for i := 0; i < y.Length(); i++ {
			m, _ := y.GetAt(i)
			scribbleDoc(r, m, n)
			if r.P(1, 2) {
				y.SetAt(i, J.NewString("scribble"))
			}
		}
		y.Add(J.NewString("scribble"))
		*n++
	}
}

func (c *Ctx) convert(o J.JSONObject) interface{} {
	var x interface{}
	if p := try(func() { x = o.Interface() }); p != nil {
		c.Fail("Interface of %s panics: %v", clip(o.String(), 2000), p)
	}
	return x
}

func c23Check(c *Ctx, d *V, o J.JSONObject) {
	r := c.R
	fp := docPrint(o)
	x := c.convert(o)
	if m := plainDiff(c, d, x, "$"); m != "" {
		c.Fail("Interface of %s: %s", clip(fp, 3000), m)
	}
	if !hasNaN(d) {
		for _, name := range []string{"MarshalAll", "MarshalAll of a pointer to it"} {
			var back J.JSONObject
			if p := try(func() {
				if name == "MarshalAll" {
					back = J.MarshalAll(x)
				} else {
					back = J.MarshalAll(&x)
				}
			}); p != nil {
				c.Fail("%s of the plain form of %s panics: %v", name, clip(fp, 3000), p)
			}
			if m := diff(d, observe(back), exact); m != "" {
				c.Fail("%s of the plain form of %s: %s", name, clip(fp, 3000), m)
			}
			c.Ev("marshalled_back", 1)
		}
	}
	// another conversion, to be looked at later
	keep := c.convert(o)
	n := 0
	scribblePlain(r, x, &n)
	c.Ev("result_edits", n)
	if now := docPrint(o); now != fp {
		c.Fail("editing the plain form of %s changed the document to %s", clip(fp, 3000), clip(now, 3000))
	}
	if m := plainDiff(c, d, keep, "$"); m != "" {
		c.Fail("editing one plain form of %s changed another: %s", clip(fp, 3000), m)
	}
	n = 0
	scribbleDoc(r, o, &n)
	c.Ev("document_edits", n)
	if m := plainDiff(c, d, keep, "$"); m != "" {
		c.Fail("editing the document %s changed its plain form: %s", clip(fp, 3000), m)
	}
	c.Distinct(fp)
	c.Sample("%s", clip(fp, 300))
}

func c23Convert(c *Ctx, i int) {
	r := c.R
	g := genOpt{str: sAny, maxSize: 1 + r.size(40), depth: 1 + r.N(5), nan: r.P(1, 10), f32: true}
	d := r.doc(g)
	o := buildVia(r, d)
	if (d.K == KArr || d.K == KDict) && r.P(1, 5) {
		// one part at several places
		inner := o
		in := d
		switch r.N(3) {
		case 0:
			o, d = J.NewArray(inner, inner, J.JSONNull, inner), vArr(in, in, vNull(), in)
		case 1:
			x := J.NewDict()
			x.Set("a", inner)
			x.Set("b", J.NewArray(inner))
			x.Set("c", inner)
			o, d = x, &V{K: KDict, M: map[string]*V{"a": in, "b": vArr(in), "c": in}}
		default:
			x := J.NewDict()
			x.Set("a", inner)
			y := x.Copy()
			o, d = J.NewArray(x, y), vArr(&V{K: KDict, M: map[string]*V{"a": in}}, &V{K: KDict, M: map[string]*V{"a": in}})
		}
		c.Ev("shared_parts", 1)
		separate(c, map[uintptr]string{}, o.Interface(), "$")
	}
	c23Check(c, d, o)
}

// separate reports a map or list that is at two places of the plain form
func separate(c *Ctx, seen map[uintptr]string, x interface{}, at string) {
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Map:
		if p, ok := seen[v.Pointer()]; ok {
			c.Fail("the map at %s is also the one at %s", at, p)
		}
		seen[v.Pointer()] = at
		for it := v.MapRange(); it.Next(); {
			separate(c, seen, it.Value().Interface(), at+"."+it.Key().String())
		}
	case reflect.Slice:
		if v.Len() == 0 {
			return
		}
		if p, ok := seen[v.Pointer()]; ok {
			c.Fail("the list at %s is also the one at %s", at, p)
		}
		seen[v.Pointer()] = at
		for i := 0; i < v.Len(); i++ {
			separate(c, seen, v.Index(i).Interface(), fmt.Sprintf("%s[%d]", at, i))
		}
	}
}

func c23Large(c *Ctx, i int) {
	r := c.R
	var d *V
	if i%6 == 5 {
		k := i / 6
		n := pick(r, []int{300, 1000, 5000})
		if k%8 == 0 {
			n = 40000
			if bigShapes[k%len(bigShapes)] == "wide object" {
				n = 8000
			}
		}
		d = r.big(bigShapes[k%len(bigShapes)], n, genOpt{})
		c23Check(c, d, build(d))
		return
	}
	switch i % 3 {
	case 0:
		d = vArr()
		for n := 500 + r.N(3000); n > 0; n-- {
			d.A = append(d.A, vInt(r.int64v()))
		}
	case 1:
		d = vDict()
		for n := 500 + r.N(1500); n > 0; n-- {
			d.M[r.key(sAny)+fmt.Sprint(n)] = vArr(vInt(int64(n)), vDict())
		}
	default:
		d = vInt(1)
		for n := 200 + r.N(400); n > 0; n-- {
			if r.P(1, 2) {
				d = vArr(d)
			} else {
				d = &V{K: KDict, M: map[string]*V{"k": d}}
			}
		}
	}
	c23Check(c, d, build(d))
}

// documents that were made by marshalling, which may hold parts by reference
func c23Marshalled(c *Ctx, i int) {
	r := c.R
	t := poolType(c, "c23", i%400, &tOpt{depth: 2, any: true})
	v := reflectNew(t)
	r.val(t, (&vOpt{str: sAny, fill: 8, noBigUint: true, noNilElem: true, embPtr: true}).large(r, 40), v.Elem(), true)
	o := J.MarshalAll(v.Interface())
	d := observe(o)
	if d.any(func(x *V) bool { return x.K == KBad }) {
		return
	}
	before := show(v.Elem())
	x := c.convert(o)
	if m := plainDiff(c, d, x, "$"); m != "" {
		c.Fail("Interface of %s: %s", clip(o.String(), 3000), m)
	}
	n := 0
	scribblePlain(r, x, &n)
	c.Ev("result_edits", n)
	if now := show(v.Elem()); now != before {
		c.Fail("editing the plain form of %s changed the Go value it was marshalled from: %s, was %s", clip(o.String(), 2000), now, before)
	}
	if m := diff(d, observe(o), exact); m != "" {
		c.Fail("editing the plain form of %s changed the document: %s", clip(o.String(), 2000), m)
	}
	c.Distinct(o.String())
}

// CN is an object of a graph
type CN struct {
	Name  string
	Next  *CN
	Peers []*CN
	Named map[string]*CN
}

// cnDiff walks a plain value in step with the objects it was made from, along
// every path on which no object repeats; a pointer back to an enclosing object
// is the very map of that object
func cnDiff(c *Ctx, n *CN, x interface{}, on map[*CN]map[string]interface{}, path string) string {
	if len(path) > 300 {
		path = path[:100] + ".." + path[len(path)-150:]
	}
	m, ok := x.(map[string]interface{})
	if !ok {
		return fmt.Sprintf("%s: an object expected, got %T", path, x)
	}
	if was, ok := on[n]; ok {
		c.Ev("graph_returns", 1)
		if reflect.ValueOf(was).Pointer() != reflect.ValueOf(m).Pointer() {
			return path + ": the reference back to an enclosing object leads to another one"
		}
		return ""
	}
	c.Ev("graph_places", 1)
	on[n] = m
	defer delete(on, n)
	count := 1
	if m["name"] != interface{}(n.Name) {
		return fmt.Sprintf("%s: the name is %v, not %q", path, clip(fmt.Sprintf("%T %v", m["name"], m["name"]), 100), n.Name)
	}
	if n.Next != nil {
		count++
		if d := cnDiff(c, n.Next, m["next"], on, path+".next"); d != "" {
			return d
		}
	}
	if len(n.Peers) > 0 {
		count++
		l, ok := m["peers"].([]interface{})
		if !ok || len(l) != len(n.Peers) {
			return fmt.Sprintf("%s.peers: a list of %d expected", path, len(n.Peers))
		}
		for i := range l {
			if d := cnDiff(c, n.Peers[i], l[i], on, fmt.Sprintf("%s.peers[%d]", path, i)); d != "" {
				return d
			}
		}
	}
	if len(n.Named) > 0 {
		count++
		l, ok := m["named"].(map[string]interface{})
		if !ok || len(l) != len(n.Named) {
			return fmt.Sprintf("%s.named: an object with %d members expected", path, len(n.Named))
		}
		for k, p := range n.Named {
			if d := cnDiff(c, p, l[k], on, path+".named."+k); d != "" {
				return d
			}
		}
	}
	if len(m) != count {
		return fmt.Sprintf("%s: %d members, expected %d", path, len(m), count)
	}
	return ""
}

func (r *Rand) cnGraph(tag string) *CN {
	for {
		ns := make([]*CN, 1+r.N(5))
		for i := range ns {
			ns[i] = &CN{Name: fmt.Sprintf("%s%d", tag, i)}
		}
		for e := r.N(2*len(ns) + 2); e > 0; e-- {
			a, b := pick(r, ns), pick(r, ns)
			switch r.N(3) {
			case 0:
				a.Next = b
			case 1:
				a.Peers = append(a.Peers, b)
			default:
				if a.Named == nil {
					a.Named = map[string]*CN{}
				}
				a.Named[pick(r, []string{"x", "y", "next"})] = b
			}
		}
		if r.P(2, 3) {
			// surely a ring
			for i := range ns {
				ns[i].Next = ns[(i+1)%len(ns)]
			}
		}
		if pathLimit(ns[0], 300) {
			return ns[0]
		}
	}
}

// c23Graphs: documents of linked objects, alone or several in one document
// where their node ids coincide
func c23Graphs(c *Ctx, i int) {
	r := c.R
	var gs []*CN
	var docs []J.JSONObject
	for n := 1 + r.N(4); n > 0; n-- {
		g := r.cnGraph(fmt.Sprintf("g%d.", n))
		gs = append(gs, g)
		d := J.Marshal(g)
		if r.P(1, 4) {
			d = J.DeepCopy(d)
		}
		docs = append(docs, d)
	}
	var o J.JSONObject
	var part func(x interface{}, k int) interface{}
	key := func(k int) string { return fmt.Sprintf("k%d", k) }
	switch r.N(4) {
	case 0:
		o = docs[0]
		gs, docs = gs[:1], docs[:1]
		part = func(x interface{}, k int) interface{} { return x }
	case 1:
		o = J.NewArray(docs...)
		part = func(x interface{}, k int) interface{} { return x.([]interface{})[k] }
	case 2:
		d := J.NewDict()
		for k := range docs {
			d.Set(key(k), docs[k])
		}
		o = d
		part = func(x interface{}, k int) interface{} { return x.(map[string]interface{})[key(k)] }
	default:
		a := J.NewArray()
		for k := range docs {
			d := J.NewDict()
			d.Set(key(k), J.NewArray(docs[k]))
			a.Add(d)
		}
		o = a
		part = func(x interface{}, k int) interface{} {
			return x.([]interface{})[k].(map[string]interface{})[key(k)].([]interface{})[0]
		}
	}
	text := o.String()
	if r.P(1, 4) {
		o = J.DeepCopy(o)
	}
	check := func(x interface{}, what string) {
		for k := range gs {
			if m := cnDiff(c, gs[k], part(x, k), map[*CN]map[string]interface{}{}, fmt.Sprintf("part %d", k)); m != "" {
				c.Fail("%s of %s (objects vs. plain form): %s", what, clip(text, 3000), m)
			}
		}
	}
	x := c.convert(o)
	check(x, "Interface")
	keep := c.convert(o)
	// edit every map of one form
	seen := map[uintptr]bool{}
	var wreck func(x interface{})
	wreck = func(x interface{}) {
		switch y := x.(type) {
		case map[string]interface{}:
			if p := reflect.ValueOf(y).Pointer(); !seen[p] {
				seen[p] = true
				for _, e := range y {
					wreck(e)
				}
				y["name"] = "scribble"
				c.Ev("result_edits", 1)
			}
		case []interface{}:
			for i := range y {
				wreck(y[i])
			}
			for i := range y {
				y[i] = "scribble"
			}
		}
	}
	wreck(x)
	c.Check(o.String() == text, "editing the plain form of %s changed the document to %s", clip(text, 3000), clip(o.String(), 3000))
	check(keep, "after the edit of another, the plain form")
	check(c.convert(o), "Interface once more")
	c.Distinct(text)
}
