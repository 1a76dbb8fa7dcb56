package main

import (
	"strconv"
	"strings"

	"yunion.io/x/pkg/errors"

	J "yunion.io/x/jsonutils"
)

type lookErr int

const (
	lookOK lookErr = iota
	lookMissing
	lookNotDict
	lookRoot // the document itself is no object
)

var lookName = []string{"found", "key not found", "not an object", "not an object at the top"}

// lookup is the reference: it walks the exported maps, which C07 checks
func lookup(o J.JSONObject, path []string, fold bool) (J.JSONObject, lookErr) {
	if len(path) == 0 {
		if _, ok := o.(*J.JSONDict); !ok {
			return nil, lookRoot
		}
		return o, lookOK
	}
	for i, k := range path {
		d, ok := o.(*J.JSONDict)
		if !ok {
			if i == 0 {
				return nil, lookRoot
			}
			return nil, lookNotDict
		}
		m := d.Value()
		x, ok := m[k]
		if !ok && fold {
			for _, n := range sortedKeys(m) {
				if strings.EqualFold(n, k) {
					x, ok = m[n], true
					break
				}
			}
		}
		if !ok {
			return nil, lookMissing
		}
		o = x
	}
	return o, lookOK
}

func checkLookErr(c *Ctx, what string, err error, le lookErr) {
	switch le {
	case lookOK:
		c.Check(err == nil, "%s fails: %v", what, shortErr(err))
	case lookMissing:
		c.Check(err != nil && errors.Cause(err) == J.ErrJsonDictKeyNotFound, "%s reports %v instead of key not found", what, shortErr(err))
	case lookNotDict:
		c.Check(err != nil && errors.Cause(err) == J.ErrInvalidJsonDict, "%s reports %v instead of not an object", what, shortErr(err))
	case lookRoot:
		c.Check(err != nil, "%s on something that is no object succeeds", what)
	}
	c.Ev(strings.ReplaceAll("look_"+lookName[le], " ", "_"), 1)
}

// randPath makes a path that follows the document most of the time
func randPath(r *Rand, o J.JSONObject, fold bool) []string {
	var path []string
	for {
		stop := 6
		d, ok := o.(*J.JSONDict)
		if !ok {
			if r.P(3, 4) {
				return path
			}
			return append(path, pick(r, []string{"", "0", "a", "x", "length"}))
		}
		ks := d.SortedKeys()
		if len(ks) == 0 || r.P(1, 8) {
			k := r.key(sAny)
			if len(ks) > 0 && r.P(1, 2) {
				k = pick(r, ks)
				switch r.N(5) {
				case 4:
					// the path to an inner member as one name
					if in, ok := d.Value()[k].(*J.JSONDict); ok && in.Length() > 0 {
						k += pick(r, []string{".", "."}) + pick(r, in.SortedKeys())
					} else {
						k += ".0"
					}
				case 0:
					k += "x"
				case 1:
					k = k[:len(k)/2]
				default:
					k = foldVariant(r, k)
				}
			}
			path = append(path, k)
			if r.P(2, 3) {
				return path
			}
			if x, err := d.Get(k); err == nil {
				o = x
				continue
			}
			return append(path, "deeper")
		}
		k := pick(r, ks)
		m := d.Value()
		o = m[k]
		if fold && r.P(1, 2) {
			k = foldVariant(r, k)
			if x, le := lookup(d, []string{k}, true); le == lookOK {
				o = x
			}
		}
		path = append(path, k)
		if r.N(stop) == 0 {
			return path
		}
	}
}

func init() {
	foldKeys := []string{"k", "K", "\u212a", "kk", "Kk", "KK", "s", "S", "ſ", "ß", "ss", "SS", "é", "É", "a", "A", "ab", "Ab", "aB", "AB", "", "σ", "ς", "Σ", "0", "ı", "i", "I", "İ"}
	register(&Prop{
		ID:   "C08",
		Rule: "random documents with names that differ in case only; existing, missing, folded and blocked paths looked up in every way and compared with a walk over the exported maps; distinct (document, path) pairs count",
		Assume: []string{
			"a lookup on an array or a scalar only has to be an error",
		},
		MinEv: map[string]int64{"look_found": 50000, "look_key_not_found": 20000, "look_not_an_object": 5000, "index_found": 5000, "index_out_of_range": 5000, "far_lookups": 40},
		W: []Workload{
			{Name: "paths", N: counts(14000, 500000), Run: func(c *Ctx, i int) {
				r := c.R
				o := genOpt{maxSize: 30, depth: 6}
				if r.P(1, 2) {
					// many names that match under folding
					o.keyOK = func(k string) bool { return false }
				}
				var v *V
				if o.keyOK != nil {
					v = foldDoc(r, foldKeys, 4)
				} else {
					v = r.doc(o)
				}
				doc := buildVia(r, v)
				before := doc.String()
				for k := 0; k < 12; k++ {
					path := randPath(r, doc, r.P(1, 2))
					want, le := lookup(doc, path, false)
					if le == lookRoot && len(path) == 0 {
						continue
					}
					if path == nil {
						path = []string{}
					}
					args := append([]string(nil), path...)
					got, err := doc.Get(path...)
					c.Note("%s.Get(%q)", before, path)
					checkLookErr(c, "Get("+q(strings.Join(path, "\" \""))+") of "+clip(before, 300), err, le)
					if got != want {
						c.Fail("Get(%q) of %s returns %s instead of the member %s", path, clip(before, 300), describe(got), describe(want))
					}
					c.Check(doc.Contains(path...) == (le == lookOK), "Contains(%q) of %s is not %v", path, clip(before, 300), le == lookOK)
					want, le = lookup(doc, path, true)
					got, err = doc.GetIgnoreCases(path...)
					checkLookErr(c, "GetIgnoreCases("+q(strings.Join(path, "\" \""))+") of "+clip(before, 300), err, le)
					if got != want {
						c.Fail("GetIgnoreCases(%q) of %s returns %s instead of %s", path, clip(before, 300), describe(got), describe(want))
					}
					c.Check(doc.ContainsIgnoreCases(path...) == (le == lookOK), "ContainsIgnoreCases(%q) of %s is not %v", path, clip(before, 300), le == lookOK)
					for i := range args {
						c.Check(args[i] == path[i], "the lookup changed the path given to it")
					}
					c.Distinct(before, strings.Join(path, "\x01"))
				}
				c.Check(doc.String() == before, "lookups changed the document %s to %s", q(before), q(doc.String()))
				if d := diff(v, observe(doc), exact); d != "" {
					c.Fail("lookups changed the document: %s", d)
				}
				c.Sample("%s", q(before))
			}},
			{Name: "far", N: counts(40, 300), Run: func(c *Ctx, i int) {
				// long paths, wide objects, long lists
				r := c.R
				n := []int{20, 50, 300, 1000, 3000}[i%5]
				var full []string
				for k := 0; k < n; k++ {
					full = append(full, pick(r, []string{"a", "B", "node", r.key(sAny)}))
				}
				leaf := J.NewArray(J.NewInt(1), J.NewString("leaf"))
				objs := []J.JSONObject{leaf}
				var cur J.JSONObject = leaf
				for k := n - 1; k >= 0; k-- {
					d := J.NewDict()
					if r.P(1, 3) {
						d.Set("side", J.NewString("text"))
					}
					d.Set(full[k], cur)
					cur = d
					objs = append(objs, d)
				}
				root := cur.(*J.JSONDict)
				if i%2 == 0 {
					// made by one nested add
					root = J.NewDict()
					c.Check(root.Add(leaf, full...) == nil, "a nested add over %d names fails", n)
					c.Ev("long_adds", 1)
				}
				var walk J.JSONObject = root
				for k, name := range full {
					d, ok := walk.(*J.JSONDict)
					c.Check(ok, "level %d of a nested object is no object", k)
					m, err := d.GetMap()
					c.Check(err == nil && m[name] != nil, "level %d of a nested object lacks its member", k)
					got, err := root.Get(full[:k+1]...)
					if k < 3 || k > n-3 || r.P(20, n) {
						c.Check(err == nil && got == m[name], "Get of the first %d of %d names gives %s, %v", k+1, n, describe(got), shortErr(err))
						c.Check(root.Contains(full[:k+1]...) && root.ContainsIgnoreCases(full[:k+1]...), "the first %d of %d names are not contained", k+1, n)
						got, err = root.GetIgnoreCases(full[:k+1]...)
						want, _ := lookup(root, full[:k+1], true)
						c.Check(err == nil && got == want, "GetIgnoreCases of the first %d of %d names gives %s, %v", k+1, n, describe(got), shortErr(err))
						bad := append(append([]string(nil), full[:k]...), name+"+")
						got, err = root.Get(append(bad, full[k+1:]...)...)
						c.Check(got == nil && err != nil, "a path with a wrong name at level %d is found", k)
						checkLookErr(c, "a path with a wrong name", err, lookMissing)
					}
					walk = m[name]
				}
				c.Check(walk == J.JSONObject(leaf), "the leaf below %d names is another", n)
				got, err := root.GetAt(1, full...)
				c.Check(err == nil && got != nil && got.String() == "\"leaf\"", "GetAt below %d names gives %s, %v", n, describe(got), shortErr(err))
				got, err = root.Get(append(append([]string(nil), full...), "x")...)
				c.Check(got == nil && err != nil, "a name of a list is found")
				// wide
				w := []int{300, 1000, 5000, 20000}[i%4]
				d, arr := J.NewDict(), J.NewArray()
				els := make([]J.JSONObject, w)
				for k := 0; k < w; k++ {
					els[k] = J.NewInt(int64(k))
					arr.Add(els[k])
					d.Set("Key"+strconv.Itoa(k), els[k])
				}
				for k := 0; k < 60; k++ {
					x := r.N(w)
					switch k {
					case 0:
						x = 0
					case 1:
						x = w - 1
					}
					name := "Key" + strconv.Itoa(x)
					g, err := d.Get(name)
					c.Check(err == nil && g == els[x] && d.Contains(name), "member %s of %d is not found: %s, %v", name, w, describe(g), shortErr(err))
					g, err = d.GetIgnoreCases(foldVariant(r, name))
					c.Check(err == nil && g == els[x], "member %s of %d is not found ignoring cases: %s, %v", name, w, describe(g), shortErr(err))
					g, err = d.Get(name + "x")
					c.Check(err != nil && g == nil && !d.Contains("key"+strconv.Itoa(x)), "a name that is not there is found among %d", w)
					g, err = arr.GetAt(x)
					c.Check(err == nil && g == els[x], "element %d of %d is not found: %s, %v", x, w, describe(g), shortErr(err))
					g, err = arr.GetAt(x - w)
					c.Check(err == nil && g == els[x], "element %d of %d is not found: %s, %v", x-w, w, describe(g), shortErr(err))
				}
				_, err = arr.GetAt(w)
				c.Check(err != nil, "element %d of %d is found", w, w)
				_, err = arr.GetAt(-w - 1)
				c.Check(err != nil, "element %d of %d is found", -w-1, w)
				c.Ev("far_lookups", 1)
				c.Distinct("far", strconv.Itoa(i))
			}},
			{Name: "indexes", N: counts(6000, 200000), Run: func(c *Ctx, i int) {
				r := c.R
				n := r.size(60)
				arr := J.NewArray()
				var els []J.JSONObject
				for k := 0; k < n; k++ {
					x := scalarDoc(r.scalar(&genOpt{}))
					els = append(els, x)
					arr.Add(x)
				}
				d := J.NewDict()
				d.Set("list", arr)
				sub := J.NewDict()
				sub.Set("list", arr)
				sub.Set("n", J.NewInt(1))
				sub.Set("null", J.JSONNull)
				d.Set("sub", sub)
				d.Set("s", J.NewString("text"))
				before := d.String()
				idx := []int{0, -1, n - 1, n, n + 1, -n, -n - 1, -n - 2, 1 << 40, -1 << 40, 1<<63 - 1, -1 << 63, -1<<63 + n}
				for k := 0; k < 6; k++ {
					idx = append(idx, r.N(2*n+4)-n-2)
				}
				for _, x := range idx {
					var want J.JSONObject
					if x >= 0 && x < n {
						want = els[x]
					} else if x < 0 && x >= -n {
						want = els[n+x]
					}
					for _, f := range []struct {
						what string
						get  func() (J.JSONObject, error)
					}{
						{"array.GetAt", func() (J.JSONObject, error) { return arr.GetAt(x) }},
						{"GetAt(list)", func() (J.JSONObject, error) { return d.GetAt(x, "list") }},
						{"GetAt(sub, list)", func() (J.JSONObject, error) { return d.GetAt(x, "sub", "list") }},
					} {
						got, err := f.get()
						if want != nil {
							c.Check(err == nil && got == want, "%s index %d of %d elements gives %s, %v instead of %s", f.what, x, n, describe(got), shortErr(err), describe(want))
							c.Ev("index_found", 1)
						} else {
							c.Check(got == nil && err != nil && errors.Cause(err) == J.ErrOutOfIndexRange, "%s index %d of %d elements gives %s, %v instead of out of range", f.what, x, n, describe(got), shortErr(err))
							c.Ev("index_out_of_range", 1)
						}
					}
					got, err := arr.GetAt(x, "list")
					c.Check(got == nil && err != nil, "a path into an array succeeds: %s", describe(got))
					_, err = d.GetAt(x, "missing")
					checkLookErr(c, "GetAt(missing)", err, lookMissing)
					_, err = d.GetAt(x, "sub", "missing")
					checkLookErr(c, "GetAt(sub, missing)", err, lookMissing)
					_, err = d.GetAt(x, "s", "t")
					checkLookErr(c, "GetAt(s, t)", err, lookNotDict)
					for _, p := range [][]string{{"s"}, {"sub"}, {"sub", "n"}, {"sub", "null"}, {}} {
						got, err = d.GetAt(x, p...)
						c.Check(got == nil && err != nil, "GetAt(%d, %q) of no array gives %s", x, p, describe(got))
					}
				}
				for _, s := range []J.JSONObject{J.NewInt(1), J.NewString("abc"), J.JSONNull, J.JSONTrue, J.NewFloat64(1.5)} {
					got, err := s.GetAt(0)
					c.Check(got == nil && err != nil, "GetAt(0) of the scalar %s gives %s", s, describe(got))
					got, err = s.Get("a")
					c.Check(got == nil && err != nil, "Get(a) of the scalar %s gives %s", s, describe(got))
					got, err = s.GetIgnoreCases("a")
					c.Check(got == nil && err != nil, "GetIgnoreCases(a) of the scalar %s gives %s", s, describe(got))
					c.Check(!s.Contains("a") && !s.ContainsIgnoreCases("a"), "the scalar %s contains a member", s)
				}
				c.Check(d.String() == before, "lookups changed the document %s to %s", q(before), q(d.String()))
				c.Distinct(before)
			}},
		},
	})
}

func foldDoc(r *Rand, keys []string, depth int) *V {
	ret := vDict()
	for n := r.N(9); n >= 0; n-- {
		k := pick(r, keys)
		switch {
		case depth > 0 && r.P(1, 2):
			ret.M[k] = foldDoc(r, keys, depth-1)
		case r.P(1, 5):
			ret.M[k] = vArr(vInt(1), vStr("x"))
		default:
			ret.M[k] = r.scalar(&genOpt{})
		}
	}
	return ret
}
