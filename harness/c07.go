package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	J "yunion.io/x/jsonutils"
)

// A mutable model of containers that refer to each other. The model of a
// container has the identity of the container.
type mnode struct {
	id  int
	v   *V // a scalar
	m   map[string]*mnode
	a   []*mnode
	k   Kind
	obj J.JSONObject
}

func (n *mnode) keys() []string { return sortedKeys(n.m) }

func (n *mnode) kids() []*mnode {
	if n.k == KArr {
		return n.a
	}
	ret := make([]*mnode, 0, len(n.m))
	for _, k := range n.keys() {
		ret = append(ret, n.m[k])
	}
	return ret
}

func (n *mnode) container() bool { return n.k == KArr || n.k == KDict }

func (n *mnode) reaches(o *mnode) bool {
	if n == o {
		return true
	}
	for _, x := range n.kids() {
		if x.container() && x.reaches(o) {
			return true
		}
	}
	return false
}

// size is the unfolded size, up to a limit
func (n *mnode) size() int {
	s := 1
	for _, x := range n.kids() {
		s += x.size()
	}
	return s
}

func (n *mnode) val() *V {
	switch n.k {
	case KArr:
		ret := &V{K: KArr}
		for _, x := range n.a {
			ret.A = append(ret.A, x.val())
		}
		return ret
	case KDict:
		ret := vDict()
		for k, x := range n.m {
			ret.M[k] = x.val()
		}
		return ret
	}
	return n.v
}

type exported struct {
	what  string
	m     map[string]J.JSONObject
	mc    map[string]J.JSONObject
	l     []J.JSONObject
	lc    []J.JSONObject
	s, sc []string
}

func (e *exported) check(c *Ctx) {
	if e.m != nil {
		c.Check(len(e.m) == len(e.mc), "%s exported earlier changed its size from %d to %d", e.what, len(e.mc), len(e.m))
		for k, x := range e.mc {
			if e.m[k] != x {
				c.Fail("%s exported earlier changed at %s", e.what, q(k))
			}
		}
	}
	for i := range e.lc {
		if e.l[i] != e.lc[i] {
			c.Fail("%s exported earlier changed at index %d", e.what, i)
		}
	}
	for i := range e.sc {
		if e.s[i] != e.sc[i] {
			c.Fail("%s exported earlier changed at index %d: %s", e.what, i, q(e.s[i]))
		}
	}
}

type history struct {
	c      *Ctx
	r      *Rand
	live   []*mnode
	seen   map[J.JSONObject]*mnode // every container object and its model
	exp    []*exported
	keys   []string
	nextID int
	log    []string
	maxSz  int
	lazy   bool // look at the containers only now and then
}

func newHistory(c *Ctx, keys []string) *history {
	return &history{c: c, r: c.R, seen: map[J.JSONObject]*mnode{}, keys: keys, maxSz: 400}
}

func (h *history) note(format string, a ...interface{}) {
	h.c.Note(format, a...)
}

func (h *history) mk(k Kind, obj J.JSONObject) *mnode {
	n := &mnode{id: h.nextID, k: k, obj: obj}
	h.nextID++
	if k == KDict {
		n.m = map[string]*mnode{}
	}
	h.own(n)
	return n
}

func (h *history) own(n *mnode) {
	if old, ok := h.seen[n.obj]; ok && old != n {
		h.c.Fail("the new container #%d is the very container #%d", n.id, old.id)
	}
	h.seen[n.obj] = n
}

// bind attaches a model without objects to the containers just made
func (h *history) bind(n *mnode, o J.JSONObject) {
	n.id = h.nextID
	h.nextID++
	switch n.k {
	case KDict:
		d, ok := o.(*J.JSONDict)
		h.c.Check(ok, "expected an object, got %T", o)
		n.obj = d
		h.own(n)
		for k, x := range n.m {
			y, err := d.Get(k)
			h.c.Check(err == nil, "member %s of a new object is missing", q(k))
			h.bind(x, y)
		}
	case KArr:
		a, ok := o.(*J.JSONArray)
		h.c.Check(ok, "expected an array, got %T", o)
		n.obj = a
		h.own(n)
		l, _ := a.GetArray()
		h.c.Check(len(l) == len(n.a), "a new array has %d elements instead of %d", len(l), len(n.a))
		for i, x := range n.a {
			h.bind(x, l[i])
		}
	default:
		n.obj = o
	}
}

func fromV(v *V) *mnode {
	n := &mnode{k: v.K, v: v}
	switch v.K {
	case KArr:
		for _, x := range v.A {
			n.a = append(n.a, fromV(x))
		}
	case KDict:
		n.m = map[string]*mnode{}
		for k, x := range v.M {
			n.m[k] = fromV(x)
		}
	}
	return n
}

func (h *history) same(what string, n *mnode, o J.JSONObject) {
	if n.container() {
		if o != n.obj {
			h.c.Fail("%s is not the container #%d that was stored there but %s", what, n.id, describe(o))
		}
		return
	}
	if o == nil {
		h.c.Fail("%s is nil", what)
	}
	if d := diff(n.v, observe(o), exact); d != "" {
		h.c.Fail("%s: %s", what, d)
	}
}

func describe(o J.JSONObject) string {
	if o == nil {
		return "nil"
	}
	return clip(fmt.Sprintf("%T %s", o, o.String()), 300)
}

// check compares a container with its model in every way of reading it
func (h *history) check(n *mnode, full bool) {
	c, r := h.c, h.r
	c.Ev("containers_checked", 1)
	switch o := n.obj.(type) {
	case *J.JSONDict:
		want := n.keys()
		got := o.SortedKeys()
		if strings.Join(got, "\x00,") != strings.Join(want, "\x00,") {
			c.Fail("object #%d lists the names %q instead of %q", n.id, got, want)
		}
		c.Check(o.Length() == len(want) && o.Size() == len(want), "object #%d has length %d and size %d instead of %d", n.id, o.Length(), o.Size(), len(want))
		c.Check(o.IsZero() == (len(want) == 0), "object #%d: IsZero %v with %d members", n.id, o.IsZero(), len(want))
		m, err := o.GetMap()
		c.Check(err == nil && len(m) == len(want), "the map of object #%d has %d members instead of %d (%v)", n.id, len(m), len(want), err)
		for k, x := range n.m {
			h.same(fmt.Sprintf("member %s of object #%d in its map", q(k), n.id), x, m[k])
		}
		if full {
			m2 := o.Value()
			c.Check(len(m2) == len(want), "Value of object #%d has %d members instead of %d", n.id, len(m2), len(want))
			for k, x := range n.m {
				if len(n.m) > 40 && !r.P(40, len(n.m)) {
					continue
				}
				g, err := o.Get(k)
				c.Check(err == nil, "Get(%s) of object #%d: %v", q(k), n.id, err)
				h.same(fmt.Sprintf("member %s of object #%d", q(k), n.id), x, g)
				h.same(fmt.Sprintf("member %s of object #%d in Value", q(k), n.id), x, m2[k])
				g, err = o.GetIgnoreCases(k)
				c.Check(err == nil, "GetIgnoreCases(%s) of object #%d: %v", q(k), n.id, err)
				h.same(fmt.Sprintf("member %s of object #%d ignoring cases", q(k), n.id), x, g)
				c.Check(o.Contains(k), "object #%d does not contain %s", n.id, q(k))
				c.Check(o.ContainsIgnoreCases(k), "object #%d does not contain %s ignoring cases", n.id, q(k))
			}
			for i := 0; i < 4; i++ {
				k := pick(r, h.keys)
				if _, ok := n.m[k]; !ok {
					g, err := o.Get(k)
					c.Check(err != nil && g == nil, "Get(%s) of object #%d finds %s", q(k), n.id, describe(g))
					c.Check(!o.Contains(k), "object #%d contains %s", n.id, q(k))
				}
			}
		}
	case *J.JSONArray:
		c.Check(o.Length() == len(n.a) && o.Size() == len(n.a), "array #%d has length %d and size %d instead of %d", n.id, o.Length(), o.Size(), len(n.a))
		c.Check(o.IsZero() == (len(n.a) == 0), "array #%d: IsZero %v with %d elements", n.id, o.IsZero(), len(n.a))
		l, err := o.GetArray()
		c.Check(err == nil && len(l) == len(n.a), "the list of array #%d has %d elements instead of %d (%v)", n.id, len(l), len(n.a), err)
		for i, x := range n.a {
			h.same(fmt.Sprintf("element %d of array #%d in its list", i, n.id), x, l[i])
		}
		if full {
			l2 := o.Value()
			ss := o.GetStringArray()
			c.Check(len(l2) == len(n.a) && len(ss) == len(n.a), "the lists of array #%d have %d and %d elements", n.id, len(l2), len(ss))
			for i, x := range n.a {
				if len(n.a) > 40 && !r.P(40, len(n.a)) {
					continue
				}
				h.same(fmt.Sprintf("element %d of array #%d in Value", i, n.id), x, l2[i])
				g, err := o.GetAt(i)
				c.Check(err == nil, "GetAt(%d) of array #%d: %v", i, n.id, err)
				h.same(fmt.Sprintf("element %d of array #%d", i, n.id), x, g)
				g, err = o.GetAt(i - len(n.a))
				c.Check(err == nil, "GetAt(%d) of array #%d: %v", i-len(n.a), n.id, err)
				h.same(fmt.Sprintf("element %d of array #%d from the end", i, n.id), x, g)
				if x.k == KStr {
					c.Check(ss[i] == x.v.S, "string %d of array #%d is %s", i, n.id, q(ss[i]))
				}
			}
		}
	}
	if full {
		v := n.val()
		if v.size() < 300 {
			if d := diff(v, observe(n.obj), exact); d != "" {
				c.Fail("container #%d: %s", n.id, d)
			}
			got, sorted, err := decodeStrict(n.obj.String(), true)
			c.Check(err == nil && sorted, "container #%d prints as %s: err=%v sorted=%v", n.id, q(n.obj.String()), err, sorted)
			if d := diff(v, got, numeric); d != "" {
				c.Fail("container #%d prints as something else: %s", n.id, d)
			}
			got, sorted, err = decodeStrict(n.obj.PrettyString(), true)
			c.Check(err == nil && sorted && diff(v, got, numeric) == "", "container #%d prints as %s: err=%v sorted=%v", n.id, q(n.obj.PrettyString()), err, sorted)
		}
	}
}

// verify checks every live container and export
func (h *history) verify(touched ...*mnode) {
	if h.lazy && !h.r.P(1, 5) {
		// nobody looks between two edits
		h.c.Ev("unobserved_edits", 1)
		return
	}
	full := map[*mnode]bool{}
	for _, n := range touched {
		full[n] = true
		h.check(n, true)
	}
	done := map[*mnode]bool{}
	var walk func(n *mnode)
	walk = func(n *mnode) {
		if done[n] || !n.container() {
			return
		}
		done[n] = true
		if !full[n] {
			h.check(n, false)
		}
		for _, x := range n.kids() {
			walk(x)
		}
	}
	for _, n := range h.live {
		walk(n)
	}
	for _, e := range h.exp {
		e.check(h.c)
	}
}

func (h *history) dicts() []*mnode { return h.ofKind(KDict) }

func (h *history) ofKind(k Kind) []*mnode {
	var ret []*mnode
	for _, n := range h.live {
		if n.k == k {
			ret = append(ret, n)
		}
	}
	return ret
}

func (h *history) add(n *mnode) {
	h.live = append(h.live, n)
	if len(h.live) > 12 {
		i := h.r.N(len(h.live))
		h.live = append(h.live[:i], h.live[i+1:]...)
	}
}

func (h *history) scalar() *mnode {
	v := h.r.scalar(&genOpt{noNeg0: true})
	return &mnode{k: v.K, v: v, obj: scalarDoc(v)}
}

// child gives something to store into p, without making a cycle
func (h *history) child(p *mnode) *mnode {
	switch h.r.N(10) {
	case 0, 1, 2:
		x := pick(h.r, h.live)
		if !x.reaches(p) && x.size() < h.maxSz {
			tot := x.size() * 2
			for _, l := range h.live {
				if l.reaches(p) {
					tot += l.size()
				}
			}
			if tot < h.maxSz*4 {
				return x
			}
		}
	case 3:
		n := h.mk(KDict, J.NewDict())
		if h.r.P(1, 2) {
			h.add(n)
		}
		return n
	case 4:
		n := h.mk(KArr, J.NewArray())
		if h.r.P(1, 2) {
			h.add(n)
		}
		return n
	case 5:
		v := h.r.doc(genOpt{maxSize: 8, depth: 3, noNeg0: true})
		if v.size() < 40 {
			n := fromV(v)
			h.bind(n, buildVia(h.r, v))
			return n
		}
	}
	return h.scalar()
}

func (h *history) key() string { return pick(h.r, h.keys) }

// keyOf prefers a name that is there
func (h *history) keyOf(n *mnode) string {
	if len(n.m) > 0 && h.r.P(2, 3) {
		return pick(h.r, n.keys())
	}
	return h.key()
}

func foldVariant(r *Rand, s string) string {
	switch r.N(6) {
	case 4, 5:
		// letter by letter
		var sb strings.Builder
		for i := 0; i < len(s); {
			c, n := utf8.DecodeRuneInString(s[i:])
			if n == 1 && c == utf8.RuneError {
				sb.WriteByte(s[i])
			} else {
				for k := r.N(3); k > 0; k-- {
					c = unicode.SimpleFold(c)
				}
				sb.WriteRune(c)
			}
			i += n
		}
		return sb.String()
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.NewReplacer("k", "\u212a", "s", "ſ", "K", "k").Replace(s)
	}
	return s
}

func (n *mnode) copyTop(keep func(string) bool) *mnode {
	ret := &mnode{k: n.k}
	if n.k == KArr {
		ret.a = append([]*mnode(nil), n.a...)
		return ret
	}
	ret.m = map[string]*mnode{}
	for k, x := range n.m {
		if keep == nil || keep(k) {
			ret.m[k] = x
		}
	}
	return ret
}

func (h *history) shallow(n *mnode, o J.JSONObject) *mnode {
	n.id = h.nextID
	h.nextID++
	n.obj = o
	h.own(n)
	return n
}

// step applies one random operation and verifies everything
func (h *history) step() {
	r, c := h.r, h.c
	ds, as := h.ofKind(KDict), h.ofKind(KArr)
	if len(ds) == 0 {
		ds = []*mnode{h.mk(KDict, J.NewDict())}
		h.live = append(h.live, ds[0])
	}
	if len(as) == 0 {
		as = []*mnode{h.mk(KArr, J.NewArray())}
		h.live = append(h.live, as[0])
	}
	d, a := pick(r, ds), pick(r, as)
	do, ao := d.obj.(*J.JSONDict), a.obj.(*J.JSONArray)
	switch op := r.N(20); op {
	case 0, 1, 2, 3:
		k, x := h.keyOf(d), h.child(d)
		if r.P(2, 3) {
			k = h.key()
		}
		h.note("#%d.Set(%s, %s)", d.id, q(k), describe(x.obj))
		do.Set(k, x.obj)
		d.m[k] = x
		c.Ev("op_set", 1)
		h.verify(d)
	case 4, 5:
		var path []string
		cur := d
		for i := r.N(4); i >= 0; i-- {
			k := h.keyOf(cur)
			path = append(path, k)
			if nx := cur.m[k]; nx != nil && nx.k == KDict {
				cur = nx
			} else {
				cur = &mnode{m: map[string]*mnode{}}
			}
		}
		x := h.child(d)
		// the model of the nested add
		cur = d
		fail := false
		var made []*mnode
		type pend struct {
			p *mnode
			k string
		}
		var touched = []*mnode{d}
		for i, k := range path {
			if i == len(path)-1 {
				break
			}
			nx, ok := cur.m[k]
			if ok && nx.k != KDict && nx.k != KNull {
				fail = true
				break
			}
			if !ok || nx.k == KNull {
				break
			}
			if x.container() && x.reaches(nx) {
				x = h.scalar()
			}
			cur = nx
		}
		h.note("#%d.Add(%s, %q)", d.id, describe(x.obj), path)
		err := do.Add(x.obj, path...)
		c.Check((err != nil) == fail, "Add(%q) to object #%d: error %v, expected an error: %v", path, d.id, err, fail)
		if !fail {
			cur = d
			for i, k := range path {
				if i == len(path)-1 {
					cur.m[k] = x
					touched = append(touched, cur)
					break
				}
				nx, ok := cur.m[k]
				if !ok || nx.k == KNull {
					g, err := cur.obj.(*J.JSONDict).Get(k)
					c.Check(err == nil, "Add(%q) made no object for %s", path, q(k))
					gd, ok := g.(*J.JSONDict)
					c.Check(ok, "Add(%q) made %s for %s", path, describe(g), q(k))
					nx = h.mk(KDict, gd)
					cur.m[k] = nx
					made = append(made, nx)
				}
				cur = nx
			}
		}
		c.Ev("op_nested_add", 1)
		h.verify(append(touched, made...)...)
	case 6, 7:
		k := h.keyOf(d)
		_, had := d.m[k]
		h.note("#%d.Remove(%s)", d.id, q(k))
		got := do.Remove(k)
		delete(d.m, k)
		c.Check(got == had, "Remove(%s) of object #%d says %v, the member was there: %v", q(k), d.id, got, had)
		c.Ev("op_remove", 1)
		h.verify(d)
	case 8:
		k := foldVariant(r, h.keyOf(d))
		had := false
		for _, x := range d.keys() {
			if strings.EqualFold(x, k) {
				delete(d.m, x)
				had = true
			}
		}
		h.note("#%d.RemoveIgnoreCase(%s)", d.id, q(k))
		got := do.RemoveIgnoreCase(k)
		c.Check(got == had, "RemoveIgnoreCase(%s) of object #%d says %v, expected %v", q(k), d.id, got, had)
		c.Ev("op_remove_fold", 1)
		h.verify(d)
	case 9, 10:
		n := 1
		if r.P(1, 3) {
			n = r.N(5)
		}
		var objs []J.JSONObject
		for i := 0; i < n; i++ {
			x := h.child(a)
			objs = append(objs, x.obj)
			a.a = append(a.a, x)
		}
		h.note("#%d.Add(%d elements)", a.id, n)
		ao.Add(objs...)
		for i := range objs {
			objs[i] = J.NewString("overwritten")
		}
		c.Ev("op_append", 1)
		h.verify(a)
	case 11:
		if len(a.a) > 0 {
			i, x := r.N(len(a.a)), h.child(a)
			h.note("#%d.SetAt(%d, %s)", a.id, i, describe(x.obj))
			ao.SetAt(i, x.obj)
			a.a[i] = x
			c.Ev("op_set_at", 1)
			h.verify(a)
		}
	case 12:
		var n *mnode
		var objs []J.JSONObject
		switch r.N(2) {
		case 0:
			n = &mnode{k: KArr}
			for i := r.size(12); i > 0; i-- {
				x := h.child(n)
				objs = append(objs, x.obj)
				n.a = append(n.a, x)
			}
			h.shallow(n, J.NewArray(objs...))
			for i := range objs {
				objs[i] = J.NewString("overwritten")
			}
		default:
			n = &mnode{k: KArr}
			var ss []string
			for i := r.size(12); i > 0; i-- {
				s := r.str(sAny)
				ss = append(ss, s)
				n.a = append(n.a, &mnode{k: KStr, v: vStr(s)})
			}
			h.shallow(n, J.NewStringArray(ss))
			for i := range ss {
				ss[i] = "overwritten"
			}
		}
		h.note("#%d made from a slice", n.id)
		h.add(n)
		h.verify(n)
	case 13:
		var n *mnode
		switch r.N(4) {
		case 0:
			n = h.shallow(d.copyTop(nil), do.Copy())
		case 1, 2:
			var ks []string
			for i := r.N(5); i > 0; i-- {
				ks = append(ks, h.keyOf(d))
			}
			in := map[string]bool{}
			for _, k := range ks {
				in[k] = true
			}
			switch r.N(3) {
			case 0:
				n = h.shallow(d.copyTop(func(k string) bool { return !in[k] }), do.CopyExcludes(ks...))
			case 1:
				n = h.shallow(d.copyTop(func(k string) bool { return in[k] }), do.CopyIncludes(ks...))
			default:
				n = h.shallow(d.copyTop(func(k string) bool { return !in[k] }), do.Copy(ks...))
			}
		default:
			n = h.shallow(a.copyTop(nil), ao.Copy())
		}
		h.note("#%d is a shallow copy of #%d or #%d", n.id, d.id, a.id)
		h.add(n)
		c.Ev("op_copy", 1)
		h.verify(n, d, a)
	case 14:
		src := pick(r, h.live)
		if src.size() > h.maxSz {
			return
		}
		n := fromV(src.val())
		h.note("deep copy of #%d", src.id)
		h.bind(n, J.DeepCopy(src.obj))
		h.add(n)
		c.Ev("op_deep_copy", 1)
		h.verify(n, src)
	case 15, 16:
		e := pick(r, ds)
		var arg J.JSONObject = e.obj
		src := e
		if r.P(1, 8) {
			src = nil
			arg = pick(r, []J.JSONObject{J.JSONNull, J.NewString("x"), J.NewArray(J.NewInt(1)), J.NewInt(3), a.obj})
		}
		if src != nil {
			for _, x := range src.m {
				if x.container() && x.reaches(d) {
					return
				}
			}
			if src.size()+d.size() > h.maxSz*2 {
				return
			}
		}
		def := r.P(1, 2)
		h.note("#%d.Update(%s) default=%v", d.id, describe(arg), def)
		if def {
			do.UpdateDefault(arg)
		} else {
			do.Update(arg)
		}
		if src != nil {
			for _, k := range src.keys() {
				if _, has := d.m[k]; !has || !def {
					d.m[k] = src.m[k]
				}
			}
		}
		c.Ev("op_merge", 1)
		h.verify(d, e)
	case 17, 18:
		// exports that are kept, or changed by the caller
		e := &exported{}
		n := d
		switch r.N(5) {
		case 0:
			e.m, _ = do.GetMap()
		case 1:
			e.m = do.Value()
		case 2:
			e.s = do.SortedKeys()
		case 3:
			e.l, _ = ao.GetArray()
			n = a
		case 4:
			e.l = ao.Value()
			n = a
		}
		e.what = fmt.Sprintf("the export of #%d", n.id)
		if r.P(1, 2) {
			h.note("export of #%d changed by the caller", n.id)
			for k := range e.m {
				if r.P(1, 2) {
					delete(e.m, k)
				} else {
					e.m[k] = J.NewString("intruder")
				}
			}
			if e.m != nil {
				e.m["intruder"] = J.NewInt(1)
			}
			for i := range e.l {
				e.l[i] = J.NewString("intruder")
			}
			if len(e.l) > 0 {
				_ = append(e.l, J.NewInt(1))
				_ = append(e.l[:len(e.l)-1], J.NewInt(2))
			}
			for i := range e.s {
				e.s[i] = "intruder"
			}
		} else {
			h.note("export of #%d kept", n.id)
			if e.m != nil {
				e.mc = map[string]J.JSONObject{}
				for k, x := range e.m {
					e.mc[k] = x
				}
			}
			e.lc = append([]J.JSONObject(nil), e.l...)
			e.sc = append([]string(nil), e.s...)
			h.exp = append(h.exp, e)
			if len(h.exp) > 10 {
				h.exp = h.exp[1:]
			}
		}
		c.Ev("op_export", 1)
		h.verify(n)
	case 19:
		switch r.N(3) {
		case 0:
			n := h.mk(KDict, J.NewDict())
			h.add(n)
		case 1:
			n := h.mk(KArr, J.NewArray())
			h.add(n)
		default:
			v := r.doc(genOpt{maxSize: 20, depth: 3, noNeg0: true, keyOK: nil})
			if v.K == KDict || v.K == KArr {
				n := fromV(v)
				h.bind(n, buildVia(r, v))
				h.add(n)
			}
		}
		h.verify()
	}
}

func (h *history) fingerprint() string {
	var sb strings.Builder
	for _, n := range h.live {
		if n.size() < 500 {
			sb.WriteString(n.val().text())
		}
	}
	return sb.String()
}

var keyUniverses = [][]string{
	{"a", "b", "c", "A", "B"},
	{"k", "K", "\u212a", "s", "S", "ſ", "ß", "ss", "SS"},
	{"", "a", "ab", "abc", "b", "ba", "\x00", "\xff", "a\x00"},
	{"é", "É", "e", "E", "z", "Z", "~", "_", "-", "0", "9", "10"},
}

func init() {
	register(&Prop{
		ID:   "C07",
		Rule: "random histories of sets, nested adds, removals, appends, replacements, copies, merges and exports over containers that share members; after every step every live container is compared with its model in every way of reading it; distinct final states count",
		Assume: []string{
			"a container is never stored inside itself",
		},
		MinEv: map[string]int64{"op_set": 20000, "op_nested_add": 10000, "op_remove": 10000, "op_remove_fold": 5000, "many_variants": 300, "op_append": 10000, "op_set_at": 3000, "op_copy": 4000, "op_deep_copy": 4000, "op_merge": 5000, "op_export": 5000},
		W: []Workload{
			{Name: "histories", N: counts(4000, 150000), Run: func(c *Ctx, i int) {
				keys := keyUniverses[i%(len(keyUniverses)+2)%len(keyUniverses)]
				if i%6 == 4 {
					keys = nil
					for k := 0; k < 12; k++ {
						keys = append(keys, c.R.key(sAny))
					}
				} else if i%6 == 5 {
					keys = nil
					for k := 0; k < 25; k++ {
						keys = append(keys, "key"+strconv.Itoa(k))
					}
				}
				h := newHistory(c, keys)
				h.lazy = i%3 == 1
				n := 20 + c.R.N(60)
				if c.tier {
					n = 20 + c.R.N(200)
				}
				for s := 0; s < n; s++ {
					h.step()
				}
				h.lazy = false
				h.verify(h.live...)
				c.Distinct(h.fingerprint())
				if i < 3 {
					c.Sample("%d steps, %d live containers: %s", n, len(h.live), h.fingerprint())
				}
			}},
			{Name: "wide", N: counts(60, 600), Run: func(c *Ctx, i int) {
				// large objects: sets and removals in random order, verified now and then
				r := c.R
				n := pick(r, []int{50, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025})
				if i%20 == 7 {
					n = 4100
				}
				h := newHistory(c, nil)
				for k := 0; k < n; k++ {
					h.keys = append(h.keys, strconv.Itoa(k*7919%n)+pick(r, letters))
				}
				d := h.mk(KDict, J.NewDict())
				h.live = []*mnode{d}
				do := d.obj.(*J.JSONDict)
				for s := 0; s < 3*n; s++ {
					k := pick(r, h.keys)
					switch {
					case r.P(2, 3):
						x := &mnode{k: KInt, v: vInt(int64(s))}
						x.obj = J.NewInt(int64(s))
						if r.P(1, 4) {
							c.Check(do.Add(x.obj, k) == nil, "Add fails")
						} else {
							do.Set(k, x.obj)
						}
						d.m[k] = x
						c.Ev("op_set", 1)
					default:
						_, had := d.m[k]
						delete(d.m, k)
						c.Check(do.Remove(k) == had, "Remove(%s) is not %v", q(k), had)
						c.Ev("op_remove", 1)
					}
					if s%(n/3) == 0 {
						h.verify(d)
					}
				}
				h.verify(d)
				// drain
				for _, k := range shuffled(r, d.keys()) {
					c.Check(do.Remove(k), "Remove(%s) is false", q(k))
					delete(d.m, k)
				}
				h.verify(d)
				c.Distinct("wide", strconv.Itoa(i))
			}},
			{Name: "huge", N: counts(12, 100), Run: func(c *Ctx, i int) {
				// large containers in few steps, looked at in every way
				r := c.R
				n := []int{400, 1100, 5000, 20000}[i%4]
				h := newHistory(c, []string{"k1", "K1", "k777", "k20000"})
				d, a := h.mk(KDict, J.NewDict()), h.mk(KArr, J.NewArray())
				do, ao := d.obj.(*J.JSONDict), a.obj.(*J.JSONArray)
				num := func(k int) *mnode {
					return &mnode{k: KInt, v: vInt(int64(k)), obj: J.NewInt(int64(k))}
				}
				var batch []J.JSONObject
				for k := 0; k < n; k++ {
					x := num(k)
					name := pick(r, []string{"k", "K", "kk"}) + strconv.Itoa(k)
					do.Set(name, x.obj)
					d.m[name] = x
					y := num(-k)
					a.a = append(a.a, y)
					if i%2 == 0 {
						ao.Add(y.obj)
					} else {
						batch = append(batch, y.obj)
					}
				}
				ao.Add(batch...)
				h.check(d, true)
				h.check(a, true)
				for k := 0; k < 30; k++ {
					at := r.N(n)
					if k == 0 {
						at = n - 1
					}
					x := num(k)
					ao.SetAt(at, x.obj)
					a.a[at] = x
					ks := d.keys()
					name := pick(r, ks)
					if k == 0 {
						name = ks[len(ks)-1]
					}
					switch k % 3 {
					case 0:
						c.Check(do.Remove(name), "Remove(%s) of a large object is false", q(name))
						delete(d.m, name)
					case 1:
						want := 0
						v := foldVariant(r, name)
						for _, m := range ks {
							if strings.EqualFold(m, v) {
								delete(d.m, m)
								want++
							}
						}
						c.Check(want > 0 && do.RemoveIgnoreCase(v), "RemoveIgnoreCase(%s) of a large object is false", q(v))
					default:
						x := num(k)
						do.Set(name, x.obj)
						d.m[name] = x
					}
				}
				c.Check(!do.Remove("absent") && !do.RemoveIgnoreCase("ABSENT"), "what is not there is removed from a large object")
				h.check(d, true)
				h.check(a, true)
				c.Ev("huge", 1)
				c.Distinct("huge", strconv.Itoa(i))
			}},
			{Name: "variants", N: counts(2000, 40000), Run: func(c *Ctx, i int) {
				// many names that differ only in case, removed at once
				r := c.R
				h := newHistory(c, nil)
				d := h.mk(KDict, J.NewDict())
				h.live = []*mnode{d}
				do := d.obj.(*J.JSONDict)
				words := []string{pick(r, []string{"abcdef", "ſkin-k", "Ωmega", "straße", "k8s", "éÉß"}), r.key(sAny)}
				h.keys = words
				for n := r.N(40); n > 0; n-- {
					k := foldVariant(r, pick(r, words))
					if r.P(1, 10) {
						k += pick(r, []string{"0", " ", "k", "K"})
					}
					x := h.scalar()
					do.Set(k, x.obj)
					d.m[k] = x
				}
				h.verify(d)
				for n := 0; n < 3; n++ {
					k := foldVariant(r, pick(r, words))
					had := 0
					for _, m := range d.keys() {
						if strings.EqualFold(m, k) {
							delete(d.m, m)
							had++
						}
					}
					got := do.RemoveIgnoreCase(k)
					c.Check(got == (had > 0), "RemoveIgnoreCase(%s) says %v where %d members match", q(k), got, had)
					if had > 3 {
						c.Ev("many_variants", 1)
					}
					c.Ev("op_remove_fold", 1)
					h.verify(d)
				}
				c.Distinct("variants", h.fingerprint())
			}},
			{Name: "arrays", N: counts(60, 600), Run: func(c *Ctx, i int) {
				// copies of an array at every stage of its growth stay apart
				r := c.R
				h := newHistory(c, []string{"a"})
				a := h.mk(KArr, J.NewArray())
				h.live = []*mnode{a}
				for s := 0; s < 70; s++ {
					src := pick(r, h.live)
					x := h.scalar()
					src.obj.(*J.JSONArray).Add(x.obj)
					src.a = append(src.a, x)
					c.Ev("op_append", 1)
					if r.P(1, 3) {
						h.add(h.shallow(src.copyTop(nil), src.obj.(*J.JSONArray).Copy()))
						c.Ev("op_copy", 1)
					}
					if len(src.a) > 0 && r.P(1, 3) {
						k := r.N(len(src.a))
						x := h.scalar()
						src.obj.(*J.JSONArray).SetAt(k, x.obj)
						src.a[k] = x
						c.Ev("op_set_at", 1)
					}
					h.verify(src)
				}
				c.Distinct("arrays", strconv.Itoa(i))
			}},
		},
	})
	_ = sort.Strings
}
