package main

import (
	"fmt"
	"reflect"
	"strings"

	J "yunion.io/x/jsonutils"
)

// containers lists the containers of a model, the root first
func containers(n *mnode) []*mnode {
	var ret []*mnode
	seen := map[*mnode]bool{}
	var walk func(n *mnode)
	walk = func(n *mnode) {
		if !n.container() || seen[n] {
			return
		}
		seen[n] = true
		ret = append(ret, n)
		for _, x := range n.kids() {
			walk(x)
		}
	}
	walk(n)
	return ret
}

func deepCopyOf(r *Rand, o J.JSONObject) J.JSONObject {
	if r.P(1, 2) {
		return J.DeepCopy(o)
	}
	switch x := o.(type) {
	case *J.JSONDict:
		return x.DeepCopy().(J.JSONObject)
	case *J.JSONArray:
		return x.DeepCopy().(J.JSONObject)
	case *J.JSONString:
		return x.DeepCopy().(J.JSONObject)
	case *J.JSONInt:
		return x.DeepCopy().(J.JSONObject)
	case *J.JSONFloat:
		return x.DeepCopy().(J.JSONObject)
	case *J.JSONBool:
		return x.DeepCopy().(J.JSONObject)
	}
	return J.DeepCopy(o)
}

func init() {
	register(&Prop{
		ID:   "C10",
		Rule: "random documents and documents with references, copied deeply and shallowly, then both sides edited at random and compared with their models after every edit; distinct documents count",
		Assume: []string{
			"scalars cannot be edited through the interface, so only containers are required to be separate",
		},
		MinEv: map[string]int64{"deep_copies": 5000, "shallow_copies": 5000, "containers_checked": 200000, "reference_copies": 1000, "large_copies": 40},
		W: []Workload{
			{Name: "deep", N: counts(6000, 200000), Run: func(c *Ctx, i int) {
				r := c.R
				var v *V
				for v == nil || v.size() > 150 {
					v = r.doc(genOpt{maxSize: 30, depth: 5, noNeg0: true, f32: true})
				}
				o := buildVia(r, v)
				text, pretty := o.String(), o.PrettyString()
				cp := deepCopyOf(r, o)
				c.Ev("deep_copies", 1)
				c.Check(cp != nil, "the deep copy of %s is nil", q(text))
				if d := diff(v, observe(cp), exact); d != "" {
					c.Fail("the deep copy of %s differs: %s", q(text), d)
				}
				c.Check(cp.String() == text && cp.PrettyString() == pretty, "the deep copy of %s prints as %s", q(text), q(cp.String()))
				c.Check(cp.Equals(o) && o.Equals(cp), "the deep copy of %s is not equal to it", q(text))
				c.Check(o.String() == text, "copying changed the original from %s to %s", q(text), q(o.String()))
				c.Distinct(text)
				c.Sample("%s", q(text))
				if v.K != KArr && v.K != KDict {
					return
				}
				h := newHistory(c, append([]string{"a", "b", "c", "x"}, randKeys(r, v)...))
				orig, copied := fromV(v), fromV(v)
				h.bind(orig, o)
				h.bind(copied, cp)
				h.live = append(containers(orig), containers(copied)...)
				r.Shuffle(len(h.live), func(i, j int) { h.live[i], h.live[j] = h.live[j], h.live[i] })
				if len(h.live) > 10 {
					h.live = h.live[:10]
				}
				for s := 0; s < 8; s++ {
					h.step()
					h.check(orig, true)
					h.check(copied, true)
				}
			}},
			{Name: "shallow", N: counts(8000, 200000), Run: func(c *Ctx, i int) {
				r := c.R
				keys := pick(r, keyUniverses)
				wide := r.P(1, 12)
				if wide {
					// many names, and long lists of names
					keys = append([]string(nil), keys...)
					for n := 10 + r.N(130); n > 0; n-- {
						keys = append(keys, fmt.Sprintf("%s%d", pick(r, keys), n))
					}
				}
				h := newHistory(c, keys)
				src := &mnode{k: KDict, m: map[string]*mnode{}}
				d := J.NewDict()
				for _, k := range keys {
					if r.P(3, 4) {
						x := h.child0()
						src.m[k] = x
						d.Set(k, x.obj)
					}
				}
				h.shallow(src, d)
				text := d.String()
				var names []string
				n := r.N(len(keys) + 2)
				if r.P(1, 20) {
					n = 10 + r.N(200)
				}
				for ; n > 0; n-- {
					k := pick(r, keys)
					if r.P(1, 4) {
						k = foldVariant(r, k)
					}
					names = append(names, k)
				}
				arg := append([]string(nil), names...)
				in := map[string]bool{}
				for _, k := range names {
					in[k] = true
				}
				var cp *J.JSONDict
				var m *mnode
				var what string
				switch r.N(4) {
				case 0:
					what, cp, m = "Copy()", d.Copy(), src.copyTop(nil)
				case 1:
					what, cp, m = "Copy", d.Copy(arg...), src.copyTop(func(k string) bool { return !in[k] })
				case 2:
					what, cp, m = "CopyExcludes", d.CopyExcludes(arg...), src.copyTop(func(k string) bool { return !in[k] })
				default:
					what, cp, m = "CopyIncludes", d.CopyIncludes(arg...), src.copyTop(func(k string) bool { return in[k] })
				}
				c.Note("%s %q of %s gives %s", what, names, text, cp)
				c.Check(strings.Join(arg, "\x00") == strings.Join(names, "\x00"), "%s changed the list of names", what)
				c.Check(cp != d, "%s gives the object itself", what)
				h.shallow(m, cp)
				c.Ev("shallow_copies", 1)
				h.check(m, true)
				h.check(src, true)
				c.Check(d.String() == text, "%s changed the original", what)
				c.Distinct(what, text, strings.Join(names, "\x00"))
				h.live = []*mnode{src, m}
				if r.P(1, 2) {
					a := h.mk(KArr, J.NewArray())
					for k := r.N(6); k > 0; k-- {
						x := h.scalar()
						a.obj.(*J.JSONArray).Add(x.obj)
						a.a = append(a.a, x)
					}
					h.live = append(h.live, a, h.shallow(a.copyTop(nil), a.obj.(*J.JSONArray).Copy()))
					c.Ev("shallow_copies", 1)
				}
				for s := 0; s < 8; s++ {
					h.step()
				}
			}},
			{Name: "references", N: counts(1500, 50000), Run: func(c *Ctx, i int) {
				r := c.R
				var root interface{}
				var fresh func() interface{}
				for {
					n := 1 + r.N(7)
					g := newGraph(r, n, r.N(2*n+3))
					root, fresh = graphRoot(r, g)
					if pathLimit(root, 300) {
						break
					}
				}
				doc := J.Marshal(root)
				if r.P(1, 3) {
					doc = mustParse(c, doc.String())
				}
				text, pretty := doc.String(), doc.PrettyString()
				cp := deepCopyOf(r, doc)
				c.Ev("reference_copies", 1)
				c.Distinct(text)
				c.Check(cp.String() == text && cp.PrettyString() == pretty, "the deep copy of %s prints as %s", q(text), q(cp.String()))
				c.Check(cp.Equals(doc) && doc.Equals(cp), "the deep copy of %s is not equal to it", q(text))
				a, b := doc.Interface(), cp.Interface()
				if d := samePlain("$", a, b, map[uintptr]uintptr{}); d != "" {
					c.Fail("the deep copy of %s converts to another plain value: %s", q(text), d)
				}
				// edits of the copy do not show in the original
				var conts []J.JSONObject
				collect(cp, &conts, 0)
				own := map[J.JSONObject]bool{}
				var oc []J.JSONObject
				collect(doc, &oc, 0)
				for _, x := range oc {
					own[x] = true
				}
				for _, x := range conts {
					c.Check(!own[x], "the deep copy of %s shares the container %s", q(text), q(x.String()))
				}
				side, other := conts, doc
				if r.P(1, 2) {
					side, other = oc, cp
				}
				for k := 0; k < 4 && len(side) > 0; k++ {
					switch x := pick(r, side).(type) {
					case *J.JSONDict:
						ks := x.SortedKeys()
						if len(ks) > 0 && r.P(1, 2) {
							x.Remove(pick(r, ks))
						} else {
							x.Set("name", J.NewString("edited"))
						}
					case *J.JSONArray:
						x.Add(J.NewString("edited"))
					}
					c.Check(other.String() == text, "an edit of one side of a deep copy of %s shows in the other: %s", q(text), q(other.String()))
					if d := samePlain("$", other.Interface(), oneOf(other == doc, a, b), map[uintptr]uintptr{}); d != "" {
						c.Fail("an edit of one side of a deep copy of %s shows in the plain value of the other: %s", q(text), d)
					}
				}
				t := fresh()
				err := other.Unmarshal(t)
				c.Check(err == nil, "the untouched side of a deep copy of %s is not readable any more: %v", q(text), shortErr(err))
				got, want := reflect.ValueOf(t), reflect.ValueOf(root)
				if want.Kind() != reflect.Ptr {
					got = got.Elem()
				}
				var st gstat
				if d := sameGraph("root", want, got, map[interface{}]interface{}{}, &st); d != "" {
					c.Fail("the untouched side of a deep copy of %s is rebuilt differently: %s", q(text), d)
				}
			}},
			{Name: "large", N: counts(60, 240), Run: func(c *Ctx, i int) {
				r := c.R
				v := bigCase(r, i, genOpt{noNeg0: true, f32: true})
				o := build(v)
				text := o.String()
				cp := deepCopyOf(r, o)
				c.Ev("deep_copies", 1)
				c.Ev("large_copies", 1)
				if d := diff(v, observe(cp), exact); d != "" {
					c.Fail("the deep copy of a large document differs: %s", clip(d, 500))
				}
				c.Check(cp.Equals(o) && o.Equals(cp), "the deep copy of a large document is not equal to it")
				var oc, conts []J.JSONObject
				collect(o, &oc, 0)
				own := map[J.JSONObject]bool{}
				for _, x := range oc {
					own[x] = true
				}
				collect(cp, &conts, 0)
				for _, x := range conts {
					c.Check(!own[x], "the deep copy of a large document shares the container %s", q(x.String()))
				}
				// edits in one side
				side, other := conts, o
				if r.P(1, 2) {
					side, other = oc, cp
				}
				var sh J.JSONObject
				switch x := other.(type) {
				case *J.JSONDict:
					sh = x.Copy()
				case *J.JSONArray:
					sh = x.Copy()
				}
				c.Check(sh.String() == text, "the shallow copy of a large document differs from it")
				c.Ev("shallow_copies", 1)
				for k := 0; k < 40; k++ {
					x := pick(r, side)
					if k == 0 {
						x = side[0]
					}
					switch x := x.(type) {
					case *J.JSONDict:
						if ks := x.SortedKeys(); len(ks) > 0 && r.P(1, 2) {
							x.Remove(pick(r, ks))
						} else {
							x.Set(pick(r, append(ks, "name")), J.NewString("edited"))
						}
					case *J.JSONArray:
						if n := x.Length(); n > 0 && r.P(2, 3) {
							x.SetAt(r.N(n), J.NewString("edited"))
						} else {
							x.Add(J.NewString("edited"))
						}
					}
				}
				c.Check(other.String() == text, "edits of one side of a deep copy of a large document show in the other")
				// the top of the shallow copy is its own
				switch x := sh.(type) {
				case *J.JSONDict:
					for _, k := range x.SortedKeys() {
						if r.P(1, 20) {
							x.Remove(k)
						}
					}
					x.Set("edited", J.JSONNull)
				case *J.JSONArray:
					for k := 0; k < 20; k++ {
						x.SetAt(r.N(x.Length()), J.NewString("edited"))
					}
					x.Add(J.JSONNull)
				}
				c.Check(other.String() == text, "edits of a shallow copy of a large document show in the original")
				c.Distinct("large", text)
			}},
			{Name: "deepest", N: counts(12, 60), Run: func(c *Ctx, i int) {
				v := vStr("x")
				for k := 0; k < []int{50, 500, 3000}[i%3]; k++ {
					if c.R.P(1, 2) {
						v = vArr(v, vNull())
					} else {
						v = &V{K: KDict, M: map[string]*V{"a": v, "n": vNull()}}
					}
				}
				o := build(v)
				cp := J.DeepCopy(o)
				if d := diff(v, observe(cp), exact); d != "" {
					c.Fail("the deep copy of a deep document differs: %s", clip(d, 500))
				}
				c.Ev("deep_copies", 1)
			}},
		},
	})
}

func oneOf[T any](b bool, x, y T) T {
	if b {
		return x
	}
	return y
}

func randKeys(r *Rand, v *V) []string {
	var ret []string
	v.any(func(x *V) bool {
		for _, k := range x.keys() {
			if len(ret) < 8 {
				ret = append(ret, k)
			}
		}
		return false
	})
	return ret
}

// child0 is a child for a container that has no model yet
func (h *history) child0() *mnode {
	if h.r.P(1, 2) {
		return h.scalar()
	}
	v := h.r.doc(genOpt{maxSize: 6, depth: 2, noNeg0: true, f32: true})
	if v.size() > 30 {
		return h.scalar()
	}
	n := fromV(v)
	h.bind(n, buildVia(h.r, v))
	return n
}

// collect lists the containers of a document
func collect(o J.JSONObject, to *[]J.JSONObject, depth int) {
	switch x := o.(type) {
	case *J.JSONDict:
		*to = append(*to, o)
		m := x.Value()
		for _, k := range sortedKeys(m) {
			collect(m[k], to, depth+1)
		}
	case *J.JSONArray:
		*to = append(*to, o)
		for _, y := range x.Value() {
			collect(y, to, depth+1)
		}
	}
}

// samePlain compares plain Go values that may be cyclic through their maps
func samePlain(path string, a, b interface{}, seen map[uintptr]uintptr) string {
	if len(path) > 400 {
		path = path[:200] + ".." + path[len(path)-100:]
	}
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok {
			return path + ": kinds differ"
		}
		p, w := reflect.ValueOf(x).Pointer(), reflect.ValueOf(y).Pointer()
		if z, ok := seen[p]; ok && z == w {
			return ""
		}
		seen[p] = w
		if len(x) != len(y) {
			return path + ": sizes differ"
		}
		for _, k := range sortedKeys(x) {
			z, ok := y[k]
			if !ok {
				return path + "." + k + ": missing"
			}
			if d := samePlain(path+"."+k, x[k], z, seen); d != "" {
				return d
			}
		}
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return path + ": lists differ"
		}
		for i := range x {
			if d := samePlain(path+"[]", x[i], y[i], seen); d != "" {
				return d
			}
		}
	default:
		if !reflect.DeepEqual(a, b) {
			return path + ": values differ"
		}
	}
	return ""
}
