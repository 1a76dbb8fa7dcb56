package main

import (
	"fmt"
	"reflect"
	"strconv"

	J "yunion.io/x/jsonutils"
)

// Types of the object graphs

type GA struct {
	Name   string
	Num    int
	Next   *GA
	Prev   *GA `json:"previous_one"`
	Other  *GB
	List   []*GA
	Map    map[string]*GA
	BMap   map[string]*GB
	Val    GV
	Pair   [2]*GB
	Lists  [][]*GA
	Tagged *GC `json:"the_c" name:"the_c_name"`
	Slot   **GA
	Tree   *GM
	*GEmb
}

// GM is a tree or graph of nothing but maps
type GM map[string]*GM

// GEmb is embedded by pointer
type GEmb struct {
	Host  *GA
	Guest *GB `json:"the_guest"`
}

type GV struct {
	Tag string
	P   *GA
	B   *GB
}

type GB struct {
	Label string `json:"label"`
	Flag  bool
	Back  *GA `json:"back"`
	// former names of other fields, written before and after them
	Behind *GA `json:"a_back" yunion-deprecated-by:"back"`
	Peers  []*GB
	Vals   []GV
	MVals  map[string]GV
	MList  map[string][]*GB
	Slots  map[string]**GA
	Rows   []***GB
}

// GP holds objects by value, the first one at its own address
type GP struct {
	In   GIn
	Arr  [2]GIn
	P    *GIn
	Q    *GIn `json:"the_q"`
	Out  *GP
	Ins  []*GIn
	Outs map[string]*GP
}

type GIn struct {
	Leaf GLeaf
	Tag  string
	L    *GLeaf
	Up   *GP
	Self *GIn
}

type GLeaf struct {
	Text string
	In   *GIn
	Peer *GLeaf
}

// c15Inner: pointers to objects that are held by value in others, so that
// objects of several types have one address
func c15Inner(c *Ctx, i int) {
	r := c.R
	for {
		gs := make([]*GP, 1+r.N(4))
		var ins []*GIn
		var leaves []*GLeaf
		n := 0
		in := func(x *GIn) {
			n++
			x.Tag, x.Leaf.Text = fmt.Sprintf("t%d", n), fmt.Sprintf("l%d", n)
			ins, leaves = append(ins, x), append(leaves, &x.Leaf)
		}
		for k := range gs {
			gs[k] = &GP{}
			in(&gs[k].In)
			in(&gs[k].Arr[0])
			in(&gs[k].Arr[1])
		}
		if r.P(1, 2) {
			x := &GIn{}
			in(x)
		}
		for e := 1 + r.N(8); e > 0; e-- {
			g, x, l := pick(r, gs), pick(r, ins), pick(r, leaves)
			// often within one object
			near := func() *GIn {
				if r.P(1, 2) {
					return pick(r, []*GIn{&g.In, &g.Arr[0], &g.Arr[1]})
				}
				return pick(r, ins)
			}
			switch r.N(9) {
			case 0:
				g.P = near()
			case 1:
				g.Q = near()
			case 2:
				g.Out = pick(r, gs)
			case 3:
				g.Ins = append(g.Ins, near())
			case 4:
				if g.Outs == nil {
					g.Outs = map[string]*GP{}
				}
				g.Outs[pick(r, []string{"a", "b"})] = pick(r, gs)
			case 5:
				if r.P(1, 2) {
					x.L = &x.Leaf
				} else {
					x.L = l
				}
			case 6:
				x.Up = pick(r, gs)
			case 7:
				if r.P(1, 2) {
					x.Self = x
				} else {
					x.Self = pick(r, ins)
				}
			default:
				switch r.N(3) {
				case 0:
					l.In = x
				case 1:
					l.Peer = pick(r, leaves)
				default:
					x.Leaf.In = x
				}
			}
			c.Ev("inner_links", 1)
		}
		root, fresh := interface{}(gs[0]), func() interface{} { return &GP{} }
		switch r.N(6) {
		case 0:
			root, fresh = pick(r, ins), func() interface{} { return &GIn{} }
		case 1:
			root, fresh = pick(r, leaves), func() interface{} { return &GLeaf{} }
		case 2:
			root, fresh = gs, func() interface{} { return &[]*GP{} }
		}
		if pathLimit(root, 500) {
			checkGraph(c, root, fresh)
			return
		}
	}
}

type GBase struct {
	Owner *GA
	Kind  string
}

type GC struct {
	GBase
	Self  *GC
	Ratio float64
	Bs    []*GB `json:"bs"`
	OldBs []*GB `json:"old_bs" yunion-deprecated-by:"bs"`
}

// graph generation: nodes are made first, then linked at random
type graph struct {
	as    []*GA
	bs    []*GB
	cs    []*GC
	ms    []*GM
	slots []**GA
	edges int
}

func newGraph(r *Rand, n, edges int) *graph {
	g := &graph{}
	g.as = append(g.as, &GA{Name: "root"})
	for i := 1; i < n; i++ {
		switch r.N(5) {
		case 0, 1, 2:
			g.as = append(g.as, &GA{Name: "a" + strconv.Itoa(i), Num: r.N(100) - 50})
		case 3:
			g.bs = append(g.bs, &GB{Label: r.str(sAny), Flag: r.P(1, 2)})
		default:
			g.cs = append(g.cs, &GC{Ratio: float64(r.N(100)) / 4, GBase: GBase{Kind: "c" + strconv.Itoa(i)}})
		}
	}
	for i := 0; i < edges; i++ {
		g.link(r)
	}
	if len(g.cs) > 0 && r.P(1, 3) {
		// lists that have two names, where only some elements are named
		x := pick(r, g.cs)
		for k := 0; k < 3; k++ {
			b := &GB{Label: "b" + strconv.Itoa(k)}
			if r.P(1, 2) {
				b.Peers = append(b.Peers, b)
			}
			x.Bs = append(x.Bs, b)
		}
		pick(r, g.as).Tagged = x
	}
	g.renamed()
	return g
}

// renamed sets the fields that are replaced by others as those
func (g *graph) renamed() {
	for _, b := range g.bs {
		b.Behind = b.Back
	}
	for _, c := range g.cs {
		c.OldBs = c.Bs
	}
}

func (g *graph) a(r *Rand) *GA { return pick(r, g.as) }
func (g *graph) b(r *Rand) *GB {
	if len(g.bs) == 0 {
		return nil
	}
	return pick(r, g.bs)
}
func (g *graph) c(r *Rand) *GC {
	if len(g.cs) == 0 {
		return nil
	}
	return pick(r, g.cs)
}

func (g *graph) link(r *Rand) {
	x, y := g.a(r), g.a(r)
	b, c := g.b(r), g.c(r)
	k := pick(r, []string{"x", "y", "z", "a b", ""})
	switch r.N(27) {
	case 22:
		if len(g.slots) == 0 || r.P(1, 2) {
			g.slots = append(g.slots, &y)
		}
		x.Slot = pick(r, g.slots)
	case 23:
		x.GEmb = &GEmb{Host: y, Guest: b}
	case 24:
		if len(g.ms) < 3 {
			// an empty one would be left out
			m := &GM{}
			(*m)["self"] = m
			g.ms = append(g.ms, m)
		}
		x.Tree = pick(r, g.ms)
		if z := pick(r, g.ms); r.P(2, 3) {
			(*pick(r, g.ms))[k] = z
		}
	case 25:
		if b != nil {
			if b.Slots == nil {
				b.Slots = map[string]**GA{}
			}
			b.Slots[k] = &y
			if len(g.slots) > 0 && r.P(1, 2) {
				b.Slots[k] = pick(r, g.slots)
			}
		}
	case 26:
		if b != nil {
			z := pick(r, g.bs)
			pz := &z
			b.Rows = append(b.Rows, &pz)
		}
	case 0, 1:
		x.Next = y
	case 2:
		x.Prev = y
	case 3:
		x.Other = b
	case 4, 5:
		x.List = append(x.List, y)
	case 6, 7:
		if x.Map == nil {
			x.Map = map[string]*GA{}
		}
		x.Map[k] = y
	case 8:
		if b != nil {
			if x.BMap == nil {
				x.BMap = map[string]*GB{}
			}
			x.BMap[k] = b
		}
	case 9:
		x.Val.P = y
		x.Val.Tag = "v"
	case 10:
		x.Val.B = b
	case 11:
		if b != nil {
			x.Pair = [2]*GB{b, pick(r, g.bs)}
		}
	case 12:
		x.Lists = append(x.Lists, []*GA{y})
	case 13:
		x.Tagged = c
	case 14, 15:
		if b != nil {
			b.Back = x
		}
	case 16:
		if b != nil {
			b.Peers = append(b.Peers, pick(r, g.bs))
		}
	case 17:
		if b != nil {
			b.Vals = append(b.Vals, GV{Tag: "t", P: x, B: pick(r, g.bs)})
		}
	case 18:
		if b != nil {
			if b.MVals == nil {
				b.MVals = map[string]GV{}
			}
			b.MVals[k] = GV{Tag: k, P: x}
			if b.MList == nil {
				b.MList = map[string][]*GB{}
			}
			b.MList[k] = append(b.MList[k], pick(r, g.bs))
		}
	case 19:
		if c != nil {
			c.Owner = x
		}
	case 20:
		if c != nil {
			c.Self = pick(r, g.cs)
		}
	case 21:
		if c != nil && b != nil {
			c.Bs = append(c.Bs, b)
		}
	}
}

// simplePaths counts the positions of the unfolding in which no object
// occurs inside itself, up to a limit
func simplePaths(v reflect.Value, on map[interface{}]bool, left *int) {
	if *left < 0 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		*left--
		if on[v.Interface()] {
			return
		}
		on[v.Interface()] = true
		simplePaths(v.Elem(), on, left)
		delete(on, v.Interface())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			simplePaths(v.Field(i), on, left)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			simplePaths(v.Index(i), on, left)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			simplePaths(v.MapIndex(k), on, left)
		}
	}
}

type gstat struct{ objects, backs int }

// sameGraph walks two graphs along every path on which no object repeats
func sameGraph(path string, a, b reflect.Value, on map[interface{}]interface{}, st *gstat) string {
	if len(path) > 600 {
		path = path[:300] + ".." + path[len(path)-200:]
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() == b.IsNil() {
				return ""
			}
			return fmt.Sprintf("%s: nil %v vs nil %v", path, a.IsNil(), b.IsNil())
		}
		if a.Elem().Kind() == reflect.Ptr {
			// the place of a pointer has no identity
			return sameGraph(path+"*", a.Elem(), b.Elem(), on, st)
		}
		if w, ok := on[a.Interface()]; ok {
			st.backs++
			if w != b.Interface() {
				return path + ": the pointer back to the enclosing object leads to another object"
			}
			return ""
		}
		for _, w := range on {
			if w == b.Interface() {
				return path + ": the pointer to a fresh object leads back to an enclosing object"
			}
		}
		st.objects++
		on[a.Interface()] = b.Interface()
		d := sameGraph(path, a.Elem(), b.Elem(), on, st)
		delete(on, a.Interface())
		return d
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if f := a.Field(i); a.Type().Field(i).Anonymous && f.Kind() == reflect.Ptr && f.IsNil() && !b.Field(i).IsNil() && b.Field(i).Elem().IsZero() {
				// an embedded part of nothing but nulls
				continue
			}
			if d := sameGraph(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i), on, st); d != "" {
				return d
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d elements vs %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := sameGraph(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i), on, st); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d entries vs %d", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("%s: entry %q is missing", path, k)
			}
			if d := sameGraph(fmt.Sprintf("%s[%q]", path, k), a.MapIndex(k), y, on, st); d != "" {
				return d
			}
		}
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s: %#v vs %#v", path, a.Interface(), b.Interface())
		}
	}
	return ""
}

// graphRoot picks the value that is marshalled
func graphRoot(r *Rand, g *graph) (interface{}, func() interface{}) {
	switch r.N(8) {
	case 0:
		n := 1 + r.N(3)
		var l []*GA
		for i := 0; i < n; i++ {
			l = append(l, g.a(r))
		}
		return l, func() interface{} { return &[]*GA{} }
	case 1:
		m := map[string]*GA{}
		for i := r.N(3); i >= 0; i-- {
			m["k"+strconv.Itoa(r.N(4))] = g.a(r)
		}
		return m, func() interface{} { return &map[string]*GA{} }
	case 2:
		if b := g.b(r); b != nil {
			return b, func() interface{} { return &GB{} }
		}
	case 3:
		if c := g.c(r); c != nil {
			return c, func() interface{} { return &GC{} }
		}
	case 4:
		return GV{Tag: "value", P: g.a(r), B: g.b(r)}, func() interface{} { return &GV{} }
	}
	return g.as[0], func() interface{} { return &GA{} }
}

// pathLimit makes sure that the unfolding is of a moderate size
func pathLimit(root interface{}, n int) bool {
	left := n
	simplePaths(reflect.ValueOf(root), map[interface{}]bool{}, &left)
	return left >= 0
}

func checkGraph(c *Ctx, root interface{}, fresh func() interface{}) {
	doc := J.Marshal(root)
	text := doc.String()
	c.Note("graph %s", clip(text, 2000))
	pretty := doc.PrettyString()
	c.Check(doc.Equals(doc), "the document of a graph does not equal itself: %s", q(text))
	c.Check(J.Marshal(root).String() == text, "marshalling the graph again gives another text than %s", q(text))
	conv := doc.Interface()
	finite(c, conv)
	all := J.MarshalAll(root)
	c.Check(J.MarshalAll(root).String() == all.String(), "marshalling all of the graph again gives another text than %s", q(all.String()))
	docs := []struct {
		what string
		get  func() J.JSONObject
	}{
		{"the document", func() J.JSONObject { return doc }},
		{"the compact text", func() J.JSONObject { return mustParse(c, text) }},
		{"the pretty text", func() J.JSONObject { return mustParse(c, pretty) }},
		{"a deep copy", func() J.JSONObject { return J.DeepCopy(doc) }},
		{"the text with nothing omitted", func() J.JSONObject { return mustParse(c, all.String()) }},
		{"the document with nothing omitted", func() J.JSONObject { return all }},
		{"a deep copy of the parsed text", func() J.JSONObject { return J.DeepCopy(mustParse(c, text)) }},
	}
	for _, d := range docs {
		o := d.get()
		was := o.String()
		c.Check(was == text || was == all.String(), "%s of a graph reads %s instead of %s", d.what, q(was), q(text))
		c.Check(o.Equals(o), "%s of a graph does not equal itself: %s", d.what, q(text))
		for k := 0; k < 2; k++ {
			t := fresh()
			err := o.Unmarshal(t)
			c.Check(err == nil, "unmarshalling %s %s of the graph fails: %v", d.what, q(text), shortErr(err))
			got := reflect.ValueOf(t)
			want := reflect.ValueOf(root)
			if want.Kind() != reflect.Ptr {
				got = got.Elem()
			}
			var st gstat
			if df := sameGraph("root", want, got, map[interface{}]interface{}{}, &st); df != "" {
				c.Fail("the graph rebuilt from %s (time %d) differs (original vs rebuilt): %s; text %s", d.what, k+1, df, q(text))
			}
			c.Ev("objects", st.objects)
			c.Ev("pointers_back", st.backs)
			c.Ev("graphs_rebuilt", 1)
			n := 200000
			reach(reflect.ValueOf(t), map[interface{}]bool{}, &n)
			c.Check(n > 0, "the graph rebuilt from %s has more than 200000 objects", d.what)
			// what was rebuilt marshals again to the same text
			if k == 0 {
				var again interface{} = t
				if want.Kind() != reflect.Ptr {
					again = got.Interface()
				}
				a := J.Marshal(again).String()
				var st2 gstat
				t2 := fresh()
				err := mustParse(c, a).Unmarshal(t2)
				c.Check(err == nil, "the graph marshalled a second time is not readable: %v: %s", shortErr(err), q(a))
				got2 := reflect.ValueOf(t2)
				if want.Kind() != reflect.Ptr {
					got2 = got2.Elem()
				}
				if df := sameGraph("root", want, got2, map[interface{}]interface{}{}, &st2); df != "" {
					c.Fail("the graph after a second round from %s differs: %s; texts %s and %s", d.what, df, q(text), q(a))
				}
			}
		}
		c.Check(o.String() == was, "%s was changed by unmarshalling from %s to %s", d.what, q(was), q(o.String()))
		finite(c, o.Interface())
	}
	// as a part of another value
	var in interface{}
	if d, ok := doc.(*J.JSONDict); ok && c.R.P(1, 2) {
		in = struct {
			D J.JSONDict `json:"d"`
		}{*d}
		if c.R.P(1, 2) {
			in = map[string]J.JSONDict{"d": *d}
		}
	} else {
		in = map[string]interface{}{"d": doc}
	}
	if got := J.Marshal(in).String(); got != `{"d":`+text+`}` {
		c.Fail("the document of a graph as a part of another value is marshalled to %s instead of %s", q(got), q(`{"d":`+text+`}`))
	}
	c.Check(doc.String() == text && doc.PrettyString() == pretty, "the document of the graph changed from %s to %s", q(text), q(doc.String()))
	c.Distinct(text)
}

func mustParse(c *Ctx, s string) J.JSONObject {
	o, err := J.ParseString(s)
	c.Check(err == nil && o != nil, "the text %s does not parse: %v", q(s), shortErr(err))
	return o
}

func reach(v reflect.Value, seen map[interface{}]bool, left *int) {
	if *left <= 0 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Interface()] {
			return
		}
		seen[v.Interface()] = true
		*left--
		reach(v.Elem(), seen, left)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			reach(v.Field(i), seen, left)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			reach(v.Index(i), seen, left)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			reach(v.MapIndex(k), seen, left)
		}
	}
}

// finite walks a plain Go value, whose maps may be cyclic
func finite(c *Ctx, v interface{}) {
	seen := map[uintptr]bool{}
	n := 0
	var walk func(x interface{})
	walk = func(x interface{}) {
		n++
		if n > 500000 {
			c.Fail("the plain value of a finite graph has more than 500000 nodes")
		}
		switch y := x.(type) {
		case map[string]interface{}:
			p := reflect.ValueOf(y).Pointer()
			if seen[p] {
				return
			}
			seen[p] = true
			for _, e := range y {
				walk(e)
			}
		case []interface{}:
			for _, e := range y {
				walk(e)
			}
		}
	}
	walk(v)
	c.Ev("plain_nodes", n)
}

func init() {
	register(&Prop{
		ID:   "C15",
		Rule: "random graphs of up to eight linked objects of three types plus rings, double lists, trees with parent pointers and pointers to objects held by value in others, marshalled and rebuilt from the document, its texts and its copies, compared along every path on which no object repeats; distinct graph texts count",
		Assume: []string{
			"objects that are shared without a cycle may come back as equal copies",
			"lists and maps of pointers hold no nil; an empty list or map equals nil",
		},
		MinEv: map[string]int64{"graphs_rebuilt": 15000, "pointers_back": 30000, "inner_links": 3000},
		W: []Workload{
			{Name: "random", N: counts(4000, 120000), Run: func(c *Ctx, i int) {
				r := c.R
				n := 1 + r.N(8)
				for {
					g := newGraph(r, n, r.N(2*n+3))
					root, fresh := graphRoot(r, g)
					if pathLimit(root, 400) {
						checkGraph(c, root, fresh)
						c.Sample("%s", clip(J.Marshal(root).String(), 300))
						return
					}
				}
			}},
			{Name: "small", N: fixed(3 * 4 * 4 * 4), Run: func(c *Ctx, i int) {
				// all graphs of three objects with a Next and a list or map edge each
				as := []*GA{{Name: "a"}, {Name: "b"}, {Name: "c"}}
				x := i / 3
				for k := range as {
					if t := x % 4; t < 3 {
						as[k].Next = as[t]
					}
					x /= 4
				}
				for j := 0; j < 64; j++ {
					y := j
					for k := range as {
						as[k].List, as[k].Map, as[k].Prev, as[k].Val = nil, nil, nil, GV{}
						if t := y % 4; t < 3 {
							switch (i + k) % 3 {
							case 0:
								as[k].List = []*GA{as[t]}
							case 1:
								as[k].Map = map[string]*GA{"m": as[t]}
							default:
								if j%2 == 0 {
									as[k].Prev = as[t]
								} else {
									as[k].Val.P = as[t]
								}
							}
						}
						y /= 4
					}
					if pathLimit(as[0], 3000) {
						checkGraph(c, as[0], func() interface{} { return &GA{} })
					}
				}
			}},
			{Name: "shapes", N: counts(120, 1000), Run: func(c *Ctx, i int) {
				r := c.R
				n := 2 + r.size(60)
				if i/4%12 == 5 {
					n = pick(r, []int{350, 700})
					if i%4 == 2 {
						n = pick(r, []int{3200, 4000}) // (not deep)
					}
				}
				as := make([]*GA, n)
				for k := range as {
					as[k] = &GA{Name: "n" + strconv.Itoa(k), Num: k}
				}
				switch i % 4 {
				case 0: // ring
					for k := range as {
						as[k].Next = as[(k+1)%n]
					}
				case 1: // double list
					for k := range as {
						if k > 0 {
							as[k].Prev = as[k-1]
						}
						if k+1 < n {
							as[k].Next = as[k+1]
						}
					}
				case 2: // tree with parents
					for k := 1; k < n; k++ {
						p := as[(k-1)/(1+i%3)]
						as[k].Prev = p
						if i%2 == 0 {
							p.List = append(p.List, as[k])
						} else {
							if p.Map == nil {
								p.Map = map[string]*GA{}
							}
							p.Map[as[k].Name] = as[k]
						}
					}
				case 3: // every node points at the root and at itself
					for k := range as {
						as[k].Val.P = as[0]
						as[k].Prev = as[k]
						if k+1 < n {
							as[k].List = []*GA{as[k+1]}
						}
					}
				}
				checkGraph(c, as[0], func() interface{} { return &GA{} })
			}},
			{Name: "large", N: counts(160, 4000), Run: func(c *Ctx, i int) {
				// a tree of many objects with pointers from anywhere back to
				// ancestors, so that nothing is unfolded
				r := c.R
				n := 20 + r.N(180)
				if i%8 == 0 {
					n = 200 + r.N(800)
				}
				type node struct {
					a  *GA
					b  *GB
					up []*GA
				}
				nodes := []*node{{a: &GA{Name: "root"}}}
				chain := pick(r, []int{2, 4, 20})
				for k := 1; k < n; k++ {
					p := nodes[r.N(len(nodes))]
					if !r.P(1, chain) && len(nodes[len(nodes)-1].up) < 300 {
						p = nodes[len(nodes)-1]
					}
					x := &node{a: &GA{Name: "n" + strconv.Itoa(k), Num: k}}
					key := "k" + strconv.Itoa(k)
					if p.a == nil {
						if p.b.MVals == nil {
							p.b.MVals = map[string]GV{}
						}
						x.up = p.up
						if r.P(1, 2) {
							p.b.MVals[key] = GV{Tag: "t", P: x.a}
						} else {
							p.b.Vals = append(p.b.Vals, GV{Tag: "t", P: x.a})
						}
						nodes = append(nodes, x)
						continue
					}
					x.up = append(append([]*GA{}, p.up...), p.a)
					switch r.N(6) {
					case 0:
						if p.a.Map == nil {
							p.a.Map = map[string]*GA{}
						}
						p.a.Map[key] = x.a
					case 1:
						p.a.Lists = append(p.a.Lists, []*GA{x.a})
					case 2:
						if p.a.BMap == nil {
							p.a.BMap = map[string]*GB{}
						}
						x.a, x.b = nil, &GB{Label: key}
						p.a.BMap[key] = x.b
					case 3:
						if p.a.Val.P == nil {
							p.a.Val.P = x.a
							break
						}
						fallthrough
					default:
						p.a.List = append(p.a.List, x.a)
					}
					nodes = append(nodes, x)
				}
				many := r.P(1, 3)
				for _, x := range nodes {
					if len(x.up) == 0 || !many && r.P(4, 5) {
						continue
					}
					// the nearest ones more often
					t := x.up[len(x.up)-1-r.N(len(x.up))*r.N(2)]
					if x.b != nil {
						x.b.Back, x.b.Behind = t, t
						continue
					}
					if r.P(1, 6) {
						t = x.a
					}
					switch r.N(5) {
					case 0:
						x.a.Next = t
					case 1:
						x.a.List = append(x.a.List, t)
					case 2:
						if x.a.Map == nil {
							x.a.Map = map[string]*GA{}
						}
						x.a.Map["up"] = t
					default:
						x.a.Prev = t
					}
				}
				checkGraph(c, nodes[0].a, func() interface{} { return &GA{} })
			}},
			{Name: "inner", N: counts(1500, 30000), Run: c15Inner},
			{Name: "shared", N: counts(300, 5000), Run: func(c *Ctx, i int) {
				// sharing without cycles, and with a cycle below the shared object
				r := c.R
				s := &GA{Name: "shared", Num: 7}
				if r.P(1, 2) {
					s.Next = s
				}
				if r.P(1, 2) {
					s.Other = &GB{Label: "b", Back: s, Behind: s}
				}
				root := &GA{Name: "root", Next: s, Prev: s, List: []*GA{s, s}, Map: map[string]*GA{"x": s, "y": s}}
				if r.P(1, 2) {
					s.Val.P = root
				}
				if pathLimit(root, 3000) {
					checkGraph(c, root, func() interface{} { return &GA{} })
				}
			}},
		},
	})
}
