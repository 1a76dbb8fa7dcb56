package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	J "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

// renv is what the concurrent readers share. Two environments made from the
// same seed have the same content and share nothing.
type renv struct {
	doc   J.JSONObject
	twin  J.JSONObject // equal content, another object
	other J.JSONObject
	text  []byte
	yaml  string
	query string
	typ   *T
	val   reflect.Value // a shared Go value of the type
	tdoc  J.JSONObject  // a shared document made from it
	graph interface{}
	gdoc  J.JSONObject
	fresh func() interface{}
	paths [][]string
	names []string
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return "error"
}

func objText(o J.JSONObject) string {
	if o == nil {
		return "nil"
	}
	return o.String()
}

func (v *V) allPaths(prefix []string, out *[][]string, max int) {
	if v.K != KDict || len(*out) >= max {
		return
	}
	for _, k := range v.keys() {
		p := append(prefix[:len(prefix):len(prefix)], k)
		*out = append(*out, p)
		v.M[k].allPaths(p, out, max)
	}
}

type rop struct {
	name string
	f    func(e *renv) string
}

// each runs f for every path of the document
func (e *renv) each(f func(p []string) string) string {
	var sb strings.Builder
	for _, p := range e.paths {
		sb.WriteString(f(p))
		sb.WriteByte('|')
	}
	return sb.String()
}

var readers = []rop{
	{"String", func(e *renv) string { return e.doc.String() }},
	{"PrettyString", func(e *renv) string { return e.doc.PrettyString() }},
	{"QueryString", func(e *renv) string { return e.doc.QueryString() }},
	{"YAMLString", func(e *renv) string { return fmt.Sprint(e.doc.YAMLString() != "") }},
	{"EqualsSelf", func(e *renv) string { return fmt.Sprint(e.doc.Equals(e.doc)) }},
	{"EqualsTwin", func(e *renv) string { return fmt.Sprint(e.doc.Equals(e.twin), e.twin.Equals(e.doc)) }},
	{"EqualsOther", func(e *renv) string { return fmt.Sprint(e.doc.Equals(e.other), e.other.Equals(e.doc)) }},
	{"DeepCopy", func(e *renv) string {
		o := J.DeepCopy(e.doc)
		if d, ok := o.(*J.JSONDict); ok {
			d.Set("added", J.NewInt(1)) // the copy is the reader's own
			return d.String()
		}
		if a, ok := o.(*J.JSONArray); ok {
			a.Add(J.NewInt(1))
			return a.String()
		}
		return objText(o)
	}},
	{"Copy", func(e *renv) string {
		switch d := e.doc.(type) {
		case *J.JSONDict:
			x := d.Copy(e.names...)
			x.Set("added", J.JSONTrue)
			return x.String() + d.CopyExcludes(e.names...).String() + d.CopyIncludes(e.names...).String()
		case *J.JSONArray:
			x := d.Copy()
			x.Add(J.JSONTrue)
			return x.String()
		}
		return ""
	}},
	{"Interface", func(e *renv) string {
		b, err := json.Marshal(e.doc.Interface())
		return string(b) + errText(err)
	}},
	{"Get", func(e *renv) string {
		return e.each(func(p []string) string { o, err := e.doc.Get(p...); return objText(o) + errText(err) })
	}},
	{"GetIgnoreCases", func(e *renv) string {
		return e.each(func(p []string) string {
			o, err := e.doc.GetIgnoreCases(strings.ToUpper(p[len(p)-1]))
			o2, err2 := e.doc.GetIgnoreCases(p...)
			return objText(o) + errText(err) + objText(o2) + errText(err2) + fmt.Sprint(e.doc.ContainsIgnoreCases(p...))
		})
	}},
	{"Contains", func(e *renv) string {
		return e.each(func(p []string) string { return fmt.Sprint(e.doc.Contains(p...), e.doc.Contains("missing")) })
	}},
	{"typed", func(e *renv) string {
		return e.each(func(p []string) string {
			i, e1 := e.doc.Int(p...)
			f, e2 := e.doc.Float(p...)
			b, e3 := e.doc.Bool(p...)
			s, e4 := e.doc.GetString(p...)
			t, e5 := e.doc.GetTime(p...)
			return fmt.Sprint(i, errText(e1), f, errText(e2), b, errText(e3), s, errText(e4), t, errText(e5))
		})
	}},
	{"texts", func(e *renv) string {
		s := ""
		for _, x := range raceTexts {
			o := J.NewString(x)
			t, e1 := o.GetTime()
			i, e2 := o.Int()
			f, e3 := o.Float()
			b, e4 := o.Bool()
			var v struct {
				T  time.Time
				I  int
				U  uint16
				F  float32
				B  bool
				P  *float64
				L  []string
				TS tristate.TriState
			}
			d := J.NewDict()
			for _, k := range []string{"t", "i", "u", "f", "b", "p", "l", "ts"} {
				d.Set(k, o)
			}
			e5 := d.Unmarshal(&v)
			p := 0.0
			if v.P != nil {
				p, v.P = *v.P, nil
			}
			s += fmt.Sprint(t, errText(e1), i, errText(e2), f, errText(e3), b, errText(e4), p, v, e5 != nil, "\n")
		}
		return s
	}},
	{"containers", func(e *renv) string {
		return e.each(func(p []string) string {
			m, e1 := e.doc.GetMap(p...)
			a, e2 := e.doc.GetArray(p...)
			at, e3 := e.doc.GetAt(0, p...)
			s := ""
			for _, x := range a {
				s += objText(x)
			}
			sa, _ := J.GetStringArray(e.doc, p...)
			return fmt.Sprint(len(m), errText(e1), s, errText(e2), objText(at), errText(e3), sa)
		})
	}},
	{"sizes", func(e *renv) string {
		switch d := e.doc.(type) {
		case *J.JSONDict:
			return fmt.Sprint(d.Size(), d.Length(), d.SortedKeys(), d.IsZero(), len(d.Value()))
		case *J.JSONArray:
			return fmt.Sprint(d.Size(), d.Length(), d.IsZero(), len(d.Value()), d.GetStringArray())
		}
		return ""
	}},
	{"helpers", func(e *renv) string {
		s := ""
		for _, n := range e.names {
			s += fmt.Sprint(J.GetQueryStringArray(e.doc, n), J.QueryBoolean(e.doc, n, true), len(J.GetArrayOfPrefix(e.doc, n)))
		}
		v, k := J.GetAnyString2(e.doc, e.names)
		return s + v + k + errText(J.CheckRequiredFields(e.doc, e.names))
	}},
	{"merge", func(e *renv) string {
		a, ok1 := e.doc.(*J.JSONDict)
		b, ok2 := e.other.(*J.JSONDict)
		if !ok1 || !ok2 {
			return ""
		}
		x, y := J.NewDict(), J.NewDict()
		x.Update(a)
		x.Update(b)
		y.UpdateDefault(a)
		y.UpdateDefault(b)
		p, q, r, s := J.Diff(a, b)
		return x.String() + y.String() + p.String() + q.String() + r.String() + s.String()
	}},
	{"share", func(e *renv) string { // the document becomes part of the reader's own one
		d := J.NewDict()
		d.Set("member", e.doc)
		a := J.NewArray(e.doc, e.twin)
		return d.String() + a.PrettyString() + J.Marshal(e.doc).String() + J.Marshal(map[string]interface{}{"k": e.doc}).String()
	}},
	{"unmarshalAny", func(e *renv) string {
		m := map[string]J.JSONObject{}
		err := e.doc.Unmarshal(&m)
		s := fmt.Sprint(errText(err), len(m))
		for _, k := range sortedKeys(m) {
			s += k + objText(m[k])
		}
		d := J.NewDict()
		err = e.doc.Unmarshal(d)
		return s + d.String() + errText(err)
	}},
	{"unmarshalType", func(e *renv) string {
		p := reflect.New(e.typ.RT)
		err := e.tdoc.Unmarshal(p.Interface())
		return show(p.Elem()) + errText(err)
	}},
	{"unmarshalMisfit", func(e *renv) string {
		p := reflect.New(e.typ.RT)
		err := e.doc.Unmarshal(p.Interface())
		return errText(err)
	}},
	{"marshalType", func(e *renv) string {
		return J.Marshal(e.val.Interface()).String() + J.MarshalAll(e.val.Addr().Interface()).String()
	}},
	{"update", func(e *renv) string {
		p := reflect.New(e.typ.RT)
		err := J.Update(p.Interface(), e.val.Interface())
		return errText(err)
	}},
	{"graphMarshal", func(e *renv) string { return J.Marshal(e.graph).String() }},
	{"graphText", func(e *renv) string { return e.gdoc.String() + e.gdoc.PrettyString() }},
	{"graphUnmarshal", func(e *renv) string {
		x := e.fresh()
		err := e.gdoc.Unmarshal(x)
		return errText(err) + J.Marshal(x).String()
	}},
	{"graphCopy", func(e *renv) string {
		o := J.DeepCopy(e.gdoc)
		return fmt.Sprint(e.gdoc.Equals(o), o.String())
	}},
	{"graphInterface", func(e *renv) string { return fmt.Sprint(e.gdoc.Interface() != nil) }},
	{"parse", func(e *renv) string {
		o, err := J.Parse(e.text)
		return objText(o) + errText(err)
	}},
	{"parseString", func(e *renv) string {
		o, n, err := J.ParseStream(e.text, 0)
		l, err2 := J.ParseJsonStreams(e.text)
		return objText(o) + errText(err) + fmt.Sprint(n, len(l), errText(err2))
	}},
	{"parseQuery", func(e *renv) string {
		o, err := J.ParseQueryString(e.query)
		return objText(o) + errText(err)
	}},
	{"parseYAML", func(e *renv) string {
		o, err := J.ParseYAML(e.yaml)
		return objText(o) + errText(err)
	}},
	{"stdMarshal", func(e *renv) string {
		o, err := J.JSONDeserialize(J.JSONObjectType, string(e.text))
		if err != nil {
			return "error"
		}
		return o.String()
	}},
	{"constants", func(e *renv) string {
		var b bool
		var x interface{}
		var t NBool
		J.JSONTrue.Unmarshal(&b)
		J.JSONFalse.Unmarshal(&t)
		J.JSONNull.Unmarshal(&x)
		return fmt.Sprint(b, t, x, J.JSONTrue.String(), J.JSONNull.String(), J.JSONFalse.Equals(J.NewBool(false)), J.JSONTrue.DeepCopy(), J.NewArray(J.JSONTrue, J.JSONNull).Interface())
	}},
}

// raceTexts are read by all typed calls: times in every accepted format,
// numbers with separators, words
var raceTexts = []string{
	"2021-02-03T04:05:06Z", "2021-02-03T04:05:06.789Z", "2021-02-03 04:05:06", "2021-02-03", "2021-02-03T04:05:06+08:00",
	"Wed, 03 Feb 2021 04:05:06 UTC", "Wed Feb  3 04:05:06 UTC 2021", "03 Feb 21 04:05 UTC",
	"1,234,567", "1.234.567,89", "1,234.5", "12", "-7", "0x1f", "1.5e3", "yes", "off", "True", "none", "", "nonsense", "1", "2021-13-45",
}

// makeEnv makes an environment: the same one for the same seed
func makeEnv(c *Ctx, i int, typ *T) *renv {
	r := newRand(c.seed, "env", i)
	e := &renv{typ: typ}
	v := r.doc(genOpt{str: sUTF8, maxSize: 40, depth: 4, noNeg0: true, f32: true, keyOK: func(k string) bool { return len(k) < 100 && k != "<<" }})
	if r.P(1, 2) && v.K != KDict {
		v = &V{K: KDict, M: map[string]*V{"a": v, "b": vStr("text"), "t": vStr("2020-01-02T03:04:05Z")}}
	}
	switch r.N(3) {
	case 0:
		e.doc = build(v)
	case 1:
		e.doc = mustParse(c, writeText(r, v, layoutWild))
	default:
		e.doc = buildVia(r, v)
	}
	e.twin = build(v)
	w := r.doc(genOpt{str: sUTF8, maxSize: 40, depth: 4, noNeg0: true})
	if v.K == KDict && r.P(1, 2) {
		w = v.clone()
		w.M["b"] = vInt(7)
		w.M["zz"] = vStr("z")
	}
	e.other = build(w)
	e.text = []byte(writeText(r, v, layoutWild))
	e.yaml = build(w).YAMLString()
	qv := queryDoc(r)
	e.query = build(qv).QueryString()
	v.allPaths(nil, &e.paths, 30)
	e.paths = append(e.paths, []string{"missing"}, []string{"b", "missing"})
	for _, p := range e.paths {
		if len(e.names) < 5 {
			e.names = append(e.names, p[len(p)-1])
		}
	}
	e.val = reflect.New(typ.RT).Elem()
	r.val(typ, &vOpt{str: sUTF8, fill: 7, noNilElem: true, noBigUint: true, embPtr: true}, e.val, false)
	e.tdoc = J.Marshal(e.val.Interface())
	g := newGraph(r, 1+r.N(6), r.N(9))
	for n := 0; n < 5; n++ {
		e.graph, e.fresh = graphRoot(r, g)
		if pathLimit(e.graph, 200) {
			break
		}
		g = newGraph(r, 1+r.N(3), r.N(4))
	}
	if !pathLimit(e.graph, 200) {
		e.graph, e.fresh = &GA{Name: "x"}, func() interface{} { return &GA{} }
	}
	e.gdoc = J.Marshal(e.graph)
	return e
}

// safeOp runs a reader and turns a panic into a result
func safeOp(f func(e *renv) string, e *renv) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	return f(e)
}

// hammer runs the readers from many goroutines on one environment and compares
// every result with what the same call gives alone on another environment of
// the same content
func hammer(c *Ctx, alone, shared *renv, ops []int, ng, rounds int) {
	r := c.R
	want := make([]string, len(readers))
	plans := make([][]int, ng)
	yields := make([]uint64, ng)
	for g := range plans {
		for k := 0; k < rounds; k++ {
			plans[g] = append(plans[g], shuffled(r, ops)...)
		}
		yields[g] = r.Uint64()
	}
	if r.P(1, 3) {
		// everybody starts with the same call
		for g := range plans {
			plans[g] = append([]int{ops[0]}, plans[g]...)
		}
	}
	type miss struct {
		op, g int
		got   string
	}
	var (
		wg     sync.WaitGroup
		start  = make(chan struct{})
		clock  int64
		order  = make([]int64, 0, 1024)
		mu     sync.Mutex
		misses []miss
		got    = make([][]string, ng)
	)
	for g := 0; g < ng; g++ {
		got[g] = make([]string, len(plans[g]))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for k, op := range plans[g] {
				got[g][k] = safeOp(readers[op].f, shared)
				atomic.AddInt64(&clock, 1)
				if yields[g]>>(uint(k)%64)&1 == 1 {
					runtime.Gosched()
				}
				if k == len(plans[g])/2 || k == len(plans[g])-1 {
					mu.Lock()
					order = append(order, int64(g)<<32|atomic.LoadInt64(&clock))
					mu.Unlock()
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for _, op := range ops {
		want[op] = safeOp(readers[op].f, alone)
		if strings.HasPrefix(want[op], "panic") {
			c.Fail("%s panics: %s", readers[op].name, want[op])
		}
	}
	for g := range plans {
		for k, op := range plans[g] {
			c.Ev("concurrent_calls", 1)
			if got[g][k] != want[op] {
				misses = append(misses, miss{op, g, got[g][k]})
			}
		}
	}
	var sb strings.Builder
	for _, o := range order {
		fmt.Fprint(&sb, o, " ")
	}
	c.Distinct(sb.String()) // how the calls interleaved
	for _, m := range misses {
		c.Fail("%s of goroutine %d gives %s concurrently and %s alone", readers[m.op].name, m.g, q(m.got), q(want[m.op]))
	}
	// the shared document is as it was
	for _, op := range []int{0, 1} {
		s := safeOp(readers[op].f, shared)
		if s != want[op] && contains(ops, op) {
			c.Fail("after the readers %s gives %s instead of %s", readers[op].name, q(s), q(want[op]))
		}
	}
}

func contains(l []int, x int) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func init() {
	all := make([]int, len(readers))
	for i := range all {
		all[i] = i
	}
	opt := &tOpt{depth: 2, strOpt: true}
	register(&Prop{
		ID:     "C19",
		Serial: true,
		Rule:   "8 goroutines run 35 kinds of read-only calls on shared documents, Go values, texts and types under the race detector, each result is compared with the one of the same call run alone on an equal environment; distinct orders of progress count",
		Assume: []string{
			"the race detector sees the accesses of the executed schedules; it has no false alarms",
			"GetIgnoreCases and the other calls are compared by content, errors by their presence",
		},
		MinEv: map[string]int64{"concurrent_calls": 60000},
		W: []Workload{
			{Name: "everything", N: counts(420, 6000), Run: func(c *Ctx, i int) {
				typ := poolType(c, "C19", i, opt)
				alone, shared := makeEnv(c, i, typ), makeEnv(c, i, typ)
				runtime.GOMAXPROCS(pick(c.R, []int{2, 4, 8, 8}))
				c.Sample("type %s, document %s", typ, q(objText(alone.doc)))
				hammer(c, alone, shared, all, 8, 1)
			}},
			{Name: "pairs", N: counts(len(readers)*len(readers), len(readers)*len(readers)*6), Run: func(c *Ctx, i int) {
				// one call against another, for every pair
				k := i % (len(readers) * len(readers))
				a, b := k/len(readers), k%len(readers)
				if a > b {
					return
				}
				typ := poolType(c, "C19p", i%97, opt)
				alone, shared := makeEnv(c, 100000+i, typ), makeEnv(c, 100000+i, typ)
				runtime.GOMAXPROCS(8)
				ops := []int{a, b}
				if a == b {
					ops = ops[:1]
				}
				c.Ev("pairs", 1)
				hammer(c, alone, shared, ops, 6, 2)
			}},
			{Name: "firstuse", N: counts(150, 3000), Run: func(c *Ctx, i int) {
				// the first use of a type happens in many goroutines at once
				r := c.R
				typ := newRand(c.seed, "fresh", i).structType(opt, 2, nil, 0)
				val := reflect.New(typ.RT).Elem()
				r.val(typ, &vOpt{str: sUTF8, fill: 8, noNilElem: true, noBigUint: true, embPtr: true}, val, false)
				runtime.GOMAXPROCS(8)
				ng := 8
				got := make([]string, ng)
				start := make(chan struct{})
				var wg sync.WaitGroup
				for g := 0; g < ng; g++ {
					wg.Add(1)
					go func(g int) {
						defer wg.Done()
						<-start
						defer func() {
							if p := recover(); p != nil {
								got[g] = fmt.Sprintf("panic: %v", p)
							}
						}()
						d := J.Marshal(val.Interface())
						p := reflect.New(typ.RT)
						err := d.Unmarshal(p.Interface())
						got[g] = d.String() + show(p.Elem()) + errText(err)
					}(g)
				}
				close(start)
				wg.Wait()
				d := J.Marshal(val.Interface())
				p := reflect.New(typ.RT)
				err := d.Unmarshal(p.Interface())
				want := d.String() + show(p.Elem()) + errText(err)
				for g := range got {
					c.Ev("concurrent_calls", 2)
					c.Check(got[g] == want, "the first use of %s gives %s instead of %s", typ, q(got[g]), q(want))
				}
				c.Distinct(typ.String(), want)
			}},
		},
	})
}
