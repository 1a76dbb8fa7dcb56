package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	J "yunion.io/x/jsonutils"
)

// locs lists the places of a model that can be replaced
func locs(v *V) []**V {
	root := v
	ret := []**V{&root}
	return append(ret, sublocs(v)...)
}

func sublocs(v *V) []**V {
	var ret []**V
	for i := range v.A {
		ret = append(ret, &v.A[i])
		ret = append(ret, sublocs(v.A[i])...)
	}
	return ret
}

// mutate gives a document with exactly one difference
func mutate(r *Rand, v *V) (*V, string) {
	v = v.clone()
	// collect the nodes with their parents
	type place struct {
		n   *V
		set func(*V)
	}
	var all []place
	var walk func(n *V, set func(*V))
	walk = func(n *V, set func(*V)) {
		all = append(all, place{n, set})
		for i := range n.A {
			i := i
			walk(n.A[i], func(x *V) { n.A[i] = x })
		}
		for _, k := range n.keys() {
			k := k
			walk(n.M[k], func(x *V) { n.M[k] = x })
		}
	}
	walk(v, func(x *V) { v = x })
	p := pick(r, all)
	if r.P(1, 2) {
		// deep places rather than the top
		p = all[len(all)-1-r.N((len(all)+1)/2)]
	}
	n := p.n
	switch n.K {
	case KArr:
		switch r.N(6) {
		case 0:
			n.A = append(n.A, vNull())
			return v, "an element more at the end"
		case 1:
			n.A = append([]*V{vInt(0)}, n.A...)
			return v, "an element more at the start"
		case 2:
			if len(n.A) > 0 {
				i := r.N(len(n.A))
				n.A = append(n.A[:i:i], n.A[i+1:]...)
				return v, "an element less"
			}
		case 3:
			if len(n.A) > 1 {
				i, j := r.N(len(n.A)), r.N(len(n.A))
				n.A[i], n.A[j] = n.A[j], n.A[i]
				return v, "two elements exchanged"
			}
		case 4:
			p.set(vDict())
			return v, "an array became an object"
		case 5:
			p.set(vArr(n))
			return v, "an array in an array"
		}
	case KDict:
		ks := n.keys()
		switch r.N(7) {
		case 0:
			n.M[r.key(sAny)+"+"] = vNull()
			return v, "a null member more"
		case 1:
			n.M[r.key(sAny)] = vInt(1)
			return v, "a member more"
		case 2, 3:
			if len(ks) > 0 {
				delete(n.M, pick(r, ks))
				return v, "a member less"
			}
		case 4:
			if len(ks) > 0 {
				k := pick(r, ks)
				nk := foldVariant(r, k)
				if nk == k {
					nk = k + "x"
				}
				n.M[nk] = n.M[k]
				delete(n.M, k)
				return v, "a member renamed"
			}
		case 5:
			if len(ks) > 1 {
				a, b := pick(r, ks), pick(r, ks)
				n.M[a], n.M[b] = n.M[b], n.M[a]
				return v, "two values exchanged"
			}
		case 6:
			p.set(vArr())
			return v, "an object became an array"
		}
	case KStr:
		switch r.N(5) {
		case 0:
			n.S += pick(r, []string{" ", "\x00", "a", "\n"})
		case 1:
			if len(n.S) > 0 {
				n.S = n.S[:len(n.S)-1]
			}
		case 2:
			n.S = foldVariant(r, n.S)
		case 3:
			if len(n.S) > 0 {
				n.S = flipByte(r, n.S, r.N(6))
			}
		default:
			switch n.S {
			case "null", "":
				p.set(vNull())
			case "true":
				p.set(vBool(true))
			default:
				if i, err := strconv.ParseInt(n.S, 10, 64); err == nil {
					p.set(vInt(i))
				} else {
					n.S = strings.TrimSpace(n.S)
				}
			}
		}
	case KInt:
		switch r.N(5) {
		case 0:
			n.I++
		case 1:
			n.I ^= 1 << uint(r.N(64))
		case 2:
			p.set(vFloat(float64(n.I)))
		case 3:
			p.set(vStr(strconv.FormatInt(n.I, 10)))
		case 4:
			p.set(vBool(n.I != 0))
		}
	case KFloat:
		switch r.N(3) {
		case 0:
			*n = *vFloat(math.Nextafter(n.F, math.Inf(1)))
		case 1:
			*n = *vFloat(-n.F)
		case 2:
			p.set(vInt(int64(n.F)))
		}
	case KBool:
		if r.P(1, 2) {
			n.B = !n.B
		} else {
			p.set(pick(r, []*V{vInt(1), vInt(0), vStr("true"), vNull()}))
		}
	case KNull:
		p.set(pick(r, []*V{vBool(false), vInt(0), vStr(""), vStr("null"), vArr(), vDict(), vFloat(0)}))
	}
	return v, "a value changed"
}

func checkEq(c *Ctx, a, b J.JSONObject, va, vb *V, what string) {
	want := diff(va, vb, exact) == ""
	if got := a.Equals(b); got != want {
		c.Fail("%s: %s Equals %s is %v instead of %v", what, q(va.text()), q(vb.text()), got, want)
	}
	if got := b.Equals(a); got != want {
		c.Fail("%s: %s Equals %s is %v instead of %v", what, q(vb.text()), q(va.text()), got, want)
	}
	if want {
		c.Ev("equal_pairs", 1)
	} else {
		c.Ev("unequal_pairs", 1)
	}
}

func init() {
	register(&Prop{
		ID:   "C11",
		Rule: "pairs of equal content built along different routes, pairs that differ in exactly one place, all pairs of a universe of small documents, documents with references compared with themselves, and families of similar documents with references, in which all pairs are compared in both directions and all triples checked; distinct pairs count",
		Assume: []string{
			"NaN, which equals nothing, is left out; an integer and a float are of different kinds",
		},
		MinEv: map[string]int64{"equal_pairs": 10000, "unequal_pairs": 50000, "reflexive_references": 1000, "law_pairs": 100000, "law_equal": 5000, "law_triples": 5000},
		W: []Workload{
			{Name: "pairs", N: counts(14000, 400000), Run: func(c *Ctx, i int) {
				r := c.R
				var v *V
				for v == nil || v.size() > 300 {
					v = r.doc(genOpt{maxSize: 40, f32: true, noNeg0: true})
				}
				a, b := buildVia(r, v), buildVia(r, v)
				ta, tb := a.String(), b.String()
				checkEq(c, a, b, v, v, "the same content")
				checkEq(c, a, a, v, v, "itself")
				c.Sample("%s", q(ta))
				for k := 0; k < 6; k++ {
					w, what := mutate(r, v)
					o := buildVia(r, w)
					c.Note("%s: %s vs %s", what, v.text(), w.text())
					checkEq(c, a, o, v, w, what)
					c.Distinct(v.text(), w.text())
				}
				c.Check(!a.Equals(nil), "%s equals nil", q(ta))
				c.Check(a.String() == ta && b.String() == tb, "comparing changed a document from %s to %s", q(ta), q(a.String()))
				if d := diff(v, observe(a), exact); d != "" {
					c.Fail("comparing changed the document: %s", d)
				}
			}},
			{Name: "universe", N: fixed(64), Run: func(c *Ctx, i int) {
				// all pairs of a universe, which includes all triples
				vals := smallUniverse()
				objs := make([]J.JSONObject, len(vals))
				for k := range vals {
					objs[k] = build(vals[k])
				}
				for k := i; k < len(vals); k += 64 {
					for l := range vals {
						checkEq(c, objs[k], objs[l], vals[k], vals[l], "small documents")
					}
					c.Distinct("universe", vals[k].text())
				}
			}},
			{Name: "references", N: counts(1500, 50000), Run: func(c *Ctx, i int) {
				r := c.R
				for {
					n := 1 + r.N(8)
					g := newGraph(r, n, r.N(2*n+3))
					root, _ := graphRoot(r, g)
					if !pathLimit(root, 400) {
						continue
					}
					doc := J.Marshal(root)
					text := doc.String()
					p := mustParse(c, text)
					for _, o := range []J.JSONObject{doc, p, J.DeepCopy(doc)} {
						c.Check(o.Equals(o), "the document with references %s does not equal itself", q(text))
						c.Ev("reflexive_references", 1)
					}
					other := mustParse(c, text)
					c.Check(p.Equals(other) == other.Equals(p), "equality of two parsed copies of %s depends on the side", q(text))
					c.Check(doc.Equals(p) == p.Equals(doc), "equality of %s and its parsed text depends on the side", q(text))
					if d, ok := other.(*J.JSONDict); ok {
						d.Set("name", J.NewString("another\x00"))
						c.Check(!p.Equals(other) && !other.Equals(p), "%s equals a document with another name", q(text))
						d.Remove("name")
						if d2, ok := p.(*J.JSONDict); ok && d2.Contains("name") {
							c.Check(!p.Equals(other) && !other.Equals(p), "%s equals a document without the name", q(text))
						}
					}
					c.Check(doc.String() == text && p.String() == text, "comparing changed %s", q(text))
					c.Distinct(text)
					return
				}
			}},
			{Name: "laws", N: counts(1500, 40000), Run: c11Laws},
			{Name: "huge", N: counts(80, 400), Run: func(c *Ctx, i int) {
				r := c.R
				v := bigCase(r, i, genOpt{noNeg0: true})
				a := build(v)
				checkEq(c, a, buildVia(r, v), v, v, "the same large content")
				n := 8
				if v.size() > 3000 {
					n = 4
				}
				for k := 0; k < n; k++ {
					w, what := mutate(r, v)
					checkEq(c, a, build(w), v, w, what)
				}
				// differences within long texts and names
				if v.any(func(x *V) bool { return x.K == KStr && len(x.S) > 250 }) {
					for k := 0; k < 12; k++ {
						w := v.clone()
						w.any(func(x *V) bool {
							if x.K == KStr && len(x.S) > 250 {
								x.S = flipByte(r, x.S, k)
								return true
							}
							return false
						})
						checkEq(c, a, build(w), v, w, "another long text")
					}
				}
				for _, name := range v.keys() {
					if len(name) > 250 {
						for k := 0; k < 12; k++ {
							w := v.clone()
							w.M[flipByte(r, name, k)] = w.M[name]
							delete(w.M, name)
							checkEq(c, a, build(w), v, w, "another long name")
						}
					}
				}
				c.Distinct("huge", strconv.Itoa(i))
			}},
			{Name: "large", N: counts(40, 300), Run: func(c *Ctx, i int) {
				r := c.R
				n := pick(r, []int{100, 255, 256, 257, 1000, 5000})
				v := vDict()
				if i%2 == 0 {
					v = vArr()
				}
				for k := 0; k < n; k++ {
					x := r.scalar(&genOpt{noNeg0: true})
					if i%2 == 0 {
						v.A = append(v.A, x)
					} else {
						v.M["k"+strconv.Itoa(k)] = x
					}
				}
				a := build(v)
				checkEq(c, a, buildVia(r, v), v, v, "the same large content")
				for k := 0; k < 10; k++ {
					w, what := mutate(r, v)
					checkEq(c, a, build(w), v, w, what)
				}
				c.Distinct("large", strconv.Itoa(i))
			}},
		},
	})
}

// flipByte changes one byte of a text: the last, the first, one in between
func flipByte(r *Rand, s string, k int) string {
	b := []byte(s)
	at := r.N(len(b))
	switch k {
	case 0:
		at = len(b) - 1
	case 1:
		at = 0
	case 2:
		at = len(b) / 2
	}
	b[at] ^= 1 << uint(r.N(7))
	return string(b)
}

func smallUniverse() []*V {
	leaves := []*V{vNull(), vBool(true), vBool(false), vInt(0), vInt(1), vInt(-1), vFloat(0), vFloat(1), vFloat(0.5), vStr(""), vStr("a"), vStr("A"), vStr("0"), vStr("1"), vStr("null"), vStr("true"), vArr(), vDict()}
	ret := append([]*V(nil), leaves...)
	for _, l := range leaves {
		ret = append(ret, vArr(l), &V{K: KDict, M: map[string]*V{"a": l}}, &V{K: KDict, M: map[string]*V{"A": l}}, &V{K: KDict, M: map[string]*V{"": l}}, vArr(vArr(l)))
		for _, m := range leaves[:12] {
			ret = append(ret, vArr(l, m), &V{K: KDict, M: map[string]*V{"a": l, "b": m}})
		}
	}
	return ret
}

// c11Laws: families of similar documents with references, read or marshalled:
// reflexive, symmetric, transitive
func c11Laws(c *Ctx, i int) {
	r := c.R
	var docs []J.JSONObject
	var texts []string
	ids := 0
	var text func(depth int) string
	text = func(depth int) string {
		k := r.N(9)
		if depth == 0 {
			k = r.N(5)
		}
		switch k {
		case 0:
			return "null"
		case 1:
			return fmt.Sprintf("<%d>", 1+r.N(2))
		case 2:
			return pick(r, []string{"1", `"a"`, "true", "<1>", "<2>"})
		case 3:
			return "[]"
		case 4:
			return "{}"
		case 5, 6:
			return "[" + text(depth-1) + pick(r, []string{"", "," + text(depth-1)}) + "]"
		default:
			id := ""
			if ids < 2 && r.P(1, 2) {
				ids++
				id = fmt.Sprintf(`"___jnid_":%d,`, ids)
			}
			return "{" + id + `"a":` + text(depth-1) + pick(r, []string{"", `,"b":` + text(depth-1)}) + "}"
		}
	}
	for k := 3 + r.N(5); k > 0; k-- {
		ids = 0
		t := text(1 + r.N(2))
		docs, texts = append(docs, mustParse(c, t)), append(texts, t)
		if r.P(1, 3) {
			// one that differs in a leaf
			t = strings.Replace(t, pick(r, []string{"null", "<1>", "<2>", "[]", "1"}), pick(r, []string{"<1>", "<2>", "null", "{}", "[]"}), 1)
			if o, err := J.ParseString(t); err == nil {
				docs, texts = append(docs, o), append(texts, t)
			}
		}
	}
	for k := r.N(4); k > 0; k-- {
		// rings of one to three objects, which unfold alike
		ns := make([]*CN, 1+r.N(3))
		for j := range ns {
			ns[j] = &CN{Name: "a"}
		}
		back := r.N(len(ns))
		for j := range ns {
			if j+1 < len(ns) {
				ns[j].Next = ns[j+1]
			} else {
				ns[j].Next = ns[back]
			}
		}
		d := J.Marshal(ns[0])
		docs, texts = append(docs, d), append(texts, d.String())
		in, _ := d.Get("next")
		docs, texts = append(docs, in), append(texts, "next of "+d.String())
	}
	eq := make([][]bool, len(docs))
	for a := range docs {
		eq[a] = make([]bool, len(docs))
		for b := range docs {
			c.Note("%s and %s", texts[a], texts[b])
			if p := try(func() { eq[a][b] = docs[a].Equals(docs[b]) }); p != nil {
				c.Fail("comparing %s and %s panics: %v", texts[a], texts[b], p)
			}
			c.Ev("law_pairs", 1)
			if eq[a][b] && a != b {
				c.Ev("law_equal", 1)
			}
		}
		c.Check(eq[a][a], "%s does not equal itself", texts[a])
	}
	for a := range docs {
		for b := range docs {
			c.Check(eq[a][b] == eq[b][a], "%s equals %s: %v, the other way: %v", texts[a], texts[b], eq[a][b], eq[b][a])
			if texts[a] == texts[b] {
				c.Check(eq[a][b], "two documents %s are not equal", texts[a])
			}
			for d := range docs {
				if a != b && b != d && eq[a][b] && eq[b][d] {
					c.Ev("law_triples", 1)
					c.Check(eq[a][d], "%s equals %s, which equals %s, but not so the first and the last", texts[a], texts[b], texts[d])
				}
			}
		}
	}
	c.Distinct(texts...)
}
