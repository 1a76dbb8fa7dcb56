package main

import (
	"strconv"

	J "yunion.io/x/jsonutils"
)

// twoDicts makes the models of two objects that overlap
func twoDicts(r *Rand) (*V, *V) {
	a, b := vDict(), vDict()
	n := r.size(40)
	if r.P(1, 20) {
		n = pick(r, []int{63, 64, 65, 200, 257})
	}
	val := func() *V {
		if r.P(2, 3) {
			return r.scalar(&genOpt{noNeg0: true})
		}
		v := r.doc(genOpt{maxSize: 6, depth: 2, noNeg0: true})
		if v.size() > 30 {
			return vNull()
		}
		return v
	}
	mode := r.N(6)
	for i := 0; i < n; i++ {
		k := r.key(sAny)
		if n > 20 {
			k = "k" + strconv.Itoa(i)
		}
		w := r.N(6)
		switch mode {
		case 0: // all in the first before the second
			w = i % 2
		case 1:
			w = 0
		case 2:
			w = 1
		}
		switch w {
		case 0:
			a.M[k] = val()
		case 1:
			b.M[k] = val()
		case 2:
			x := val()
			a.M[k], b.M[k] = x, x.clone()
		case 3:
			x := val()
			y, _ := mutate(r, x)
			a.M[k], b.M[k] = x, y
		case 4:
			a.M[k], b.M[k] = val(), val()
		default:
			a.M[k], b.M[foldVariant(r, k)] = val(), val()
		}
	}
	return a, b
}

func dictOf(r *Rand, v *V) *J.JSONDict {
	return buildVia(r, v).(*J.JSONDict)
}

func isSame(c *Ctx, what string, o J.JSONObject, v *V) {
	if d := diff(v, observe(o), exact); d != "" {
		c.Fail("%s: %s", what, d)
	}
}

// edit changes the members of an object and its model
func edit(r *Rand, d *J.JSONDict, v *V) {
	for n := 1 + r.N(3); n > 0; n-- {
		ks := v.keys()
		k := r.key(sAny)
		if len(ks) > 0 && r.P(2, 3) {
			k = pick(r, ks)
		}
		if r.P(1, 3) {
			d.Remove(k)
			delete(v.M, k)
		} else {
			d.Set(k, J.NewString("edited"))
			v.M[k] = vStr("edited")
		}
	}
}

func init() {
	register(&Prop{
		ID:   "C12",
		Rule: "pairs of overlapping objects merged, merged as defaults and split into the four parts of a diff, checked against models before and after further edits of every object involved; distinct pairs count",
		Assume: []string{
			"member values are shared by design; edits of members mean setting and removing them",
		},
		MinEv: map[string]int64{"updates": 10000, "defaults": 10000, "diffs": 10000, "non_objects": 1000, "large_pairs": 20},
		W: []Workload{
			{Name: "merges", N: counts(20000, 500000), Run: func(c *Ctx, i int) {
				r := c.R
				va, vb := twoDicts(r)
				a, b := dictOf(r, va), dictOf(r, vb)
				c.Distinct(va.text(), vb.text())
				ma, mb := a.Value(), b.Value()
				c.Note("a %s b %s", va.text(), vb.text())
				want := vDict()
				def := i%2 == 0
				for k, x := range va.M {
					want.M[k] = x
				}
				for k, x := range vb.M {
					if _, ok := va.M[k]; !ok || !def {
						want.M[k] = x
					}
				}
				what := "Update"
				if def {
					what = "UpdateDefault"
					a.UpdateDefault(b)
					c.Ev("defaults", 1)
				} else {
					a.Update(b)
					c.Ev("updates", 1)
				}
				isSame(c, what+" of "+q(va.text())+" from "+q(vb.text()), a, want)
				isSame(c, what+": the object that is only read", b, vb)
				// the member values themselves are taken over
				for k, x := range a.Value() {
					_, inA := ma[k]
					from := mb[k]
					if inA && (def || from == nil) {
						from = ma[k]
					}
					c.Check(x == from, "%s: member %s is not the member of its source", what, q(k))
				}
				for k := 0; k < 3; k++ {
					edit(r, a, want)
					isSame(c, what+", then edits of the result: the result", a, want)
					isSame(c, what+", then edits of the result: the source", b, vb)
					edit(r, b, vb)
					isSame(c, what+", then edits of the source: the result", a, want)
					isSame(c, what+", then edits of the source: the source", b, vb)
				}
				// a second merge, from the result and from itself
				if r.P(1, 3) {
					d := J.NewDict()
					d.Update(a)
					isSame(c, "an empty object updated", d, want)
					vd := want.clone()
					edit(r, d, vd)
					isSame(c, "the source after edits of what was updated from it", a, want)
					isSame(c, "an edited object", d, vd)
					e := J.NewDict()
					a.Update(e)
					a.UpdateDefault(e)
					a.Update(a)
					a.UpdateDefault(a)
					isSame(c, "an object merged with an empty object and itself", a, want)
					c.Check(e.Length() == 0, "the empty source got members")
					edit(r, e, vDict())
					isSame(c, "an object after edits of the empty source", a, want)
				}
				if r.P(1, 4) {
					o := pick(r, []J.JSONObject{J.JSONNull, J.JSONTrue, J.NewInt(1), J.NewString("{\"a\":1}"), J.NewFloat64(2.5), J.NewArray(b), J.NewArray(), nil})
					a.Update(o)
					a.UpdateDefault(o)
					isSame(c, "merging with something that is no object", a, want)
					c.Ev("non_objects", 1)
				}
			}},
			{Name: "diffs", N: counts(20000, 500000), Run: func(c *Ctx, i int) {
				r := c.R
				va, vb := twoDicts(r)
				a, b := dictOf(r, va), dictOf(r, vb)
				c.Distinct(va.text(), vb.text())
				c.Note("a %s b %s", va.text(), vb.text())
				ta, tb := a.String(), b.String()
				onlyA, differ, same, onlyB := J.Diff(a, b)
				c.Ev("diffs", 1)
				w := [4]*V{vDict(), vDict(), vDict(), vDict()}
				for k, x := range va.M {
					y, ok := vb.M[k]
					switch {
					case !ok:
						w[0].M[k] = x
					case diff(x, y, exact) != "":
						w[1].M[k] = vArr(x, y)
					default:
						w[2].M[k] = x
					}
				}
				for k, y := range vb.M {
					if _, ok := va.M[k]; !ok {
						w[3].M[k] = y
					}
				}
				parts := [4]*J.JSONDict{onlyA, differ, same, onlyB}
				names := [4]string{"only in the first", "different", "equal", "only in the second"}
				for k := range parts {
					isSame(c, "Diff of "+q(ta)+" and "+q(tb)+": the part "+names[k], parts[k], w[k])
					c.Ev("part_"+strconv.Itoa(k), len(w[k].M))
				}
				c.Check(a.String() == ta && b.String() == tb, "Diff changed its input %s or %s", q(ta), q(tb))
				// put together again
				ra, rb := J.NewDict(), J.NewDict()
				ra.Update(onlyA)
				ra.Update(same)
				rb.Update(onlyB)
				rb.Update(same)
				for _, k := range differ.SortedKeys() {
					x, err := differ.GetAt(0, k)
					c.Check(err == nil, "%v", err)
					y, err := differ.GetAt(1, k)
					c.Check(err == nil, "%v", err)
					ra.Set(k, x)
					rb.Set(k, y)
				}
				isSame(c, "the first object put together again", ra, va)
				isSame(c, "the second object put together again", rb, vb)
				c.Check(ra.Equals(a) && rb.Equals(b), "the objects put together again from a diff of %s and %s are not equal to them", q(ta), q(tb))
				// edits of the parts and of the inputs stay apart
				for k := 0; k < 4; k++ {
					edit(r, parts[k], w[k])
					isSame(c, "the first input after an edit of a part", a, va)
					isSame(c, "the second input after an edit of a part", b, vb)
				}
				edit(r, a, va)
				edit(r, b, vb)
				for k := range parts {
					isSame(c, "after edits of the inputs, the part "+names[k], parts[k], w[k])
				}
				isSame(c, "the first input after its own edit", a, va)
				isSame(c, "the second input after its own edit", b, vb)
			}},
			{Name: "large", N: counts(30, 200), Run: func(c *Ctx, i int) {
				r := c.R
				n := []int{300, 1100, 6000}[i%3]
				va, vb := vDict(), vDict()
				for k := 0; k < n; k++ {
					name := "k" + strconv.Itoa(k)
					if k%11 == 0 {
						name = strconv.Itoa(k) + r.key(sAny)
					}
					w := r.N(5)
					if i%5 == 0 {
						w = k * 5 / n
					}
					x := r.scalar(&genOpt{noNeg0: true})
					switch w {
					case 0:
						va.M[name] = x
					case 1:
						vb.M[name] = x
					case 2:
						va.M[name], vb.M[name] = x, x.clone()
					default:
						y, _ := mutate(r, x)
						va.M[name], vb.M[name] = x, y
					}
				}
				a, b := build(va).(*J.JSONDict), build(vb).(*J.JSONDict)
				p0, p1, p2, p3 := J.Diff(a, b)
				w := [4]*V{vDict(), vDict(), vDict(), vDict()}
				for k, x := range va.M {
					y, ok := vb.M[k]
					switch {
					case !ok:
						w[0].M[k] = x
					case diff(x, y, exact) != "":
						w[1].M[k] = vArr(x, y)
					default:
						w[2].M[k] = x
					}
				}
				for k, y := range vb.M {
					if _, ok := va.M[k]; !ok {
						w[3].M[k] = y
					}
				}
				for k, p := range []*J.JSONDict{p0, p1, p2, p3} {
					isSame(c, "the diff of large objects: part "+strconv.Itoa(k), p, w[k])
				}
				c.Ev("diffs", 1)
				up, def := vDict(), vDict()
				for k, x := range va.M {
					up.M[k], def.M[k] = x, x
				}
				for k, y := range vb.M {
					up.M[k] = y
					if _, ok := va.M[k]; !ok {
						def.M[k] = y
					}
				}
				a2 := a.Copy()
				a.Update(b)
				a2.UpdateDefault(b)
				isSame(c, "the update of a large object", a, up)
				isSame(c, "the defaults of a large object", a2, def)
				isSame(c, "the source of a large merge", b, vb)
				c.Ev("updates", 1)
				c.Ev("defaults", 1)
				// a large object into a small one and the other way round
				small, vs := J.NewDict(), vDict()
				edit(r, small, vs)
				for k, y := range vb.M {
					vs.M[k] = y
				}
				small.Update(b)
				isSame(c, "a small object updated from a large one", small, vs)
				edit(r, small, vs)
				edit(r, small, vs)
				isSame(c, "the source after edits of what was updated from it", b, vb)
				c.Ev("large_pairs", 1)
				c.Distinct("large", strconv.Itoa(i))
			}},
			{Name: "self", N: counts(1000, 20000), Run: func(c *Ctx, i int) {
				va, _ := twoDicts(c.R)
				a := dictOf(c.R, va)
				x, y, z, w := J.Diff(a, a)
				c.Check(x.Length() == 0 && y.Length() == 0 && w.Length() == 0, "an object differs from itself: %s %s %s", x, y, w)
				isSame(c, "the equal part of an object and itself", z, va)
				e := J.NewDict()
				x, y, z, w = J.Diff(a, e)
				c.Check(y.Length()+z.Length()+w.Length() == 0, "members are invented for an empty object")
				isSame(c, "the members that an empty object lacks", x, va)
				x, y, z, w = J.Diff(e, a)
				c.Check(x.Length()+y.Length()+z.Length() == 0, "members are invented for an empty object")
				isSame(c, "the members that an empty first object lacks", w, va)
				c.Distinct("self", va.text())
			}},
		},
	})
}
