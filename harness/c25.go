package main

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"unsafe"

	J "yunion.io/x/jsonutils"
)

// C25: cost grows in proportion to the size
//
// Every call is measured on a document and on one of the same shape that is
// many times larger. The monitor reads the allocator's exact byte counter and
// the processor time of the calling thread, so that neither other processes
// nor the collector disturb the verdict.

func threadTime() float64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0)
	return float64(ts.Sec)*1e9 + float64(ts.Nsec)
}

// cin is what the measured calls work on
type cin struct {
	n      int
	text   string
	doc    J.JSONObject
	twin   J.JSONObject
	near   J.JSONObject // differs from doc in the last place only
	pretty string
	broken string // a bracket in the middle is replaced
	query  string
	yaml   string
	plain  interface{}
	model  *V
	stream []byte
	docs   int
	// many small documents
	many     []byte
	manyDocs int
	typed    interface{}
	fresh    func() interface{}
	tdoc     J.JSONObject
	paths    [][]string
	dotted   int // bytes in the dotted names of all inner objects and lists
	names    []string
}

type cshape struct {
	name string
	// n0 and n1 are the small and the large size
	n0, n1 int
	// wide: an object with so many members that inserting them in no order
	// takes time of its own
	wide  bool
	model func(r *Rand, n int) *V
	text  func(r *Rand, n int) string
}

func cKey(i int) string { return fmt.Sprintf("k%07d", i) }

// cUnit makes a small document that the large ones consist of
func cUnit(r *Rand) *V {
	g := genOpt{str: sUTF8, maxSize: 6, depth: 2, noEmpty: true, noNeg0: true, keyOK: func(k string) bool { return k != "" && len(k) < 20 }, strOK: func(s string) bool { return len(s) < 40 }}
	b := 6
	return r.tree(&g, 2, &b, r.P(1, 2))
}

var cShapes = []*cshape{
	{name: "list of small documents", n0: 60, n1: 3600, model: func(r *Rand, n int) *V {
		u := []*V{cUnit(r), cUnit(r), cUnit(r)}
		ret := vArr()
		for i := 0; i < n; i++ {
			ret.A = append(ret.A, u[i%3])
		}
		return ret
	}},
	{name: "list of scalars", n0: 200, n1: 12000, model: func(r *Rand, n int) *V {
		ret := vArr()
		k := r.N(6)
		for i := 0; i < n; i++ {
			x := []*V{vInt(int64(i) * 1000003), vFloat(float64(i) + 0.5), vStr("text" + strconv.Itoa(i)), vBool(i%3 == 0), vNull(), vStr("")}[(k+i*(k%2))%6]
			ret.A = append(ret.A, x)
		}
		return ret
	}},
	{name: "object of scalars", n0: 150, n1: 9000, wide: true, model: func(r *Rand, n int) *V {
		ret := vDict()
		u := []*V{vInt(5), vStr("some text"), vFloat(2.5), vBool(true), vNull(), vStr("1,234")}
		k := r.N(6)
		for i := 0; i < n; i++ {
			ret.M[cKey(i)] = u[(k+i)%6]
		}
		return ret
	}},
	{name: "object of small documents", n0: 40, n1: 2400, wide: true, model: func(r *Rand, n int) *V {
		ret := vDict()
		u := []*V{cUnit(r), cUnit(r), cUnit(r)}
		for i := 0; i < n; i++ {
			ret.M[cKey(i)] = u[i%3]
		}
		return ret
	}},
	{name: "members in descending order", n0: 200, n1: 20000, wide: true, text: func(r *Rand, n int) string {
		var sb strings.Builder
		sb.WriteByte('{')
		for i := n; i > 0; i-- {
			fmt.Fprintf(&sb, `"%s":%d,`, cKey(i), i)
		}
		sb.WriteString(`"a":1}`)
		return sb.String()
	}},
	{name: "members in no order", n0: 200, n1: 20000, wide: true, text: func(r *Rand, n int) string {
		var sb strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, `,"%016x":%d`, r.Uint64(), i)
		}
		return "{" + sb.String()[1:] + "}"
	}},
	{name: "nested lists", n0: 100, n1: 2500, model: func(r *Rand, n int) *V {
		ret := vArr(vInt(1))
		side := r.N(3)
		for i := 1; i < n; i++ {
			switch side {
			case 0:
				ret = vArr(ret)
			case 1:
				ret = vArr(ret, vInt(int64(i)))
			default:
				ret = vArr(vStr("before"), ret)
			}
		}
		return ret
	}},
	{name: "nested objects", n0: 50, n1: 2000, model: func(r *Rand, n int) *V {
		ret := vStr("innermost")
		side := r.N(3)
		for i := 0; i < n; i++ {
			o := vDict()
			o.M["m"] = ret
			if side > 0 {
				o.M["a"] = vInt(int64(i))
			}
			if side > 1 {
				o.M["z"] = vArr(vStr("after"))
			}
			ret = o
		}
		return ret
	}},
	{name: "nested lists and objects", n0: 50, n1: 2000, model: func(r *Rand, n int) *V {
		ret := vStr("innermost")
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				ret = vArr(vInt(1), ret)
			} else {
				ret = &V{K: KDict, M: map[string]*V{"m": ret, "n": vNull()}}
			}
		}
		return ret
	}},
	{name: "balanced tree", n0: 60, n1: 3000, model: func(r *Rand, n int) *V {
		fan := 2 + r.N(6)
		var mk func(n int) *V
		mk = func(n int) *V {
			if n <= 1 {
				return vStr("leaf")
			}
			if n%2 == 0 {
				ret := vArr()
				for i := 0; i < fan; i++ {
					ret.A = append(ret.A, mk(n/fan))
				}
				return ret
			}
			ret := vDict()
			for i := 0; i < fan; i++ {
				ret.M["m"+strconv.Itoa(i)] = mk(n / fan)
			}
			return ret
		}
		return mk(n)
	}},
	{name: "long string", n0: 2000, n1: 120000, model: func(r *Rand, n int) *V {
		u := pick(r, []string{"x", "é", "\n", "\"", "\x01", "😀", "\\", "a b ", "/", "\u2028", "<&>", "1,", ".", "%", "+ ", "'", ": - #"})
		s := vStr(strings.Repeat(u, 1+n/len(u)))
		return pick(r, []func() *V{
			func() *V { return vArr(s) },
			func() *V { return &V{K: KDict, M: map[string]*V{"m": s}} },
		})()
	}},
	{name: "long strings", n0: 2000, n1: 100000, model: func(r *Rand, n int) *V {
		ret := vArr()
		u := pick(r, []string{"x", "é", "\n\t", "\"q\"", "a b "})
		for i := 0; i < 20; i++ {
			ret.A = append(ret.A, vStr(strings.Repeat(u, 1+n/20/len(u))))
		}
		return ret
	}},
	{name: "long names", n0: 1000, n1: 20000, model: func(r *Rand, n int) *V {
		ret := vDict()
		u := pick(r, []string{"x", "é", "\"", "a b ", "A"})
		for i := 0; i < 5; i++ {
			ret.M[strconv.Itoa(i)+strings.Repeat(u, 1+n/5/len(u))] = vInt(int64(i))
		}
		return ret
	}},
	{name: "blanks", n0: 2000, n1: 120000, text: func(r *Rand, n int) string {
		u := pick(r, []string{" ", "\n", "\t", "\r\n", " \n\t"})
		b := strings.Repeat(u, n/len(u)/4)
		return b + "{" + b + `"a"` + b + ":" + b + "[1" + b + "," + b + "2]}"
	}},
	{name: "blanks around many", n0: 200, n1: 10000, text: func(r *Rand, n int) string {
		return "[" + strings.Repeat(pick(r, []string{"1 , \n ", "\t\"a\" ,  ", "{ } , ", "[ 1\t] ,\r\n"}), n) + "0 ]"
	}},
	{name: "repeated names", n0: 100, n1: 6000, text: func(r *Rand, n int) string {
		return "{" + strings.Repeat(pick(r, []string{`"a":[1],`, `"a":{"b":1},`, `"a":"x","b":2,`}), n) + `"z":1}`
	}},
	{name: "long numbers", n0: 500, n1: 30000, text: func(r *Rand, n int) string {
		return "[" + pick(r, []string{"0." + strings.Repeat("3", n), "1." + strings.Repeat("0", n) + "e5", "-0.0" + strings.Repeat("12", n/2), "1" + strings.Repeat("0", 200) + "." + strings.Repeat("7", n)}) + ",1]"
	}},
	{name: "escapes", n0: 300, n1: 20000, text: func(r *Rand, n int) string {
		return `["` + strings.Repeat(pick(r, []string{`\u00e9`, `\n`, `\ud83d\ude00`, `\"`, `\/`, `\u0041`, `\\`}), n) + `"]`
	}},
	{name: "many escaped strings", n0: 100, n1: 6000, text: func(r *Rand, n int) string {
		return "[" + strings.Repeat(pick(r, []string{`"\u00e9x",`, `"\n",`, `"\ud83d\ude00",`, `"a\"b",`}), n) + `""]`
	}},
	{name: "words", n0: 200, n1: 10000, text: func(r *Rand, n int) string {
		return "[" + strings.Repeat(pick(r, []string{"true,", "false,null,", "1.5e3,", "-7,", "[],", "{},", `"",`}), n) + "0]"
	}},
	{name: "list of lists", n0: 30, n1: 2000, model: func(r *Rand, n int) *V {
		ret := vArr()
		for i := 0; i < n; i++ {
			ret.A = append(ret.A, vArr(vInt(int64(i)), vStr("x"), vArr(vBool(true))))
		}
		return ret
	}},
	{name: "records", n0: 30, n1: 1500, model: func(r *Rand, n int) *V {
		ret := vArr()
		for i := 0; i < n; i++ {
			ret.A = append(ret.A, &V{K: KDict, M: map[string]*V{"id": vStr("id-" + strconv.Itoa(i)), "size": vInt(int64(i)), "ok": vBool(true), "tags": vArr(vStr("a"), vStr("b")), "meta": &V{K: KDict, M: map[string]*V{"k": vStr("v")}}}})
		}
		return &V{K: KDict, M: map[string]*V{"records": ret, "total": vInt(int64(n))}}
	}},
}

func cNear(v *V) *V {
	w := v.clone()
	x := w
	for {
		switch {
		case x.K == KArr && len(x.A) > 0:
			x = x.A[len(x.A)-1]
			continue
		case x.K == KDict && len(x.M) > 0:
			k := x.keys()
			x = x.M[k[len(k)-1]]
			continue
		}
		break
	}
	*x = *vStr("another text")
	return w
}

func cDotted(v *V, prefix int) int {
	n := 0
	for k, x := range v.M {
		p := prefix + 1 + len(k)
		n += p + cDotted(x, p)
	}
	for _, x := range v.A {
		n += prefix + cDotted(x, prefix)
	}
	return n
}

func (s *cshape) prepare(c *Ctx, seed uint64, n int) *cin {
	r := seeded(seed, 25)
	in := &cin{n: n}
	if s.text != nil {
		in.text = s.text(r, n)
	} else {
		in.text = build(s.model(r, n)).String()
	}
	var err error
	in.doc, err = J.ParseString(in.text)
	c.Check(err == nil, "%s: %v", s.name, err)
	in.twin, _ = J.ParseString(in.text)
	in.model = observe(in.doc)
	in.near = build(cNear(in.model))
	in.dotted = cDotted(in.model, 0)
	in.pretty = in.doc.PrettyString()
	b := []byte(in.text)
	if k := strings.LastIndexAny(in.text[:len(b)/2+1], "]},"); k > 0 {
		b[k] = '!'
	} else {
		b[len(b)/2] = 1
	}
	in.broken = string(b)
	in.query = in.doc.QueryString()
	in.yaml = in.doc.YAMLString()
	in.plain = in.doc.Interface()
	for len(in.stream) < len(in.text) || in.docs < 3 {
		in.stream = append(in.stream, in.text...)
		in.stream = append(in.stream, " \n"...)
		in.docs++
	}
	for len(in.many) < len(in.text) {
		in.many = append(in.many, pick(r, []string{`{"a":[1,null]}`, `["x"] `, `[]`, `{"b":"c"}`})...)
		in.many = append(in.many, '\n')
		in.manyDocs++
	}
	var p []string
	for o := in.model; o.K == KDict; {
		k := o.keys()
		if len(k) == 0 {
			break
		}
		m := k[len(k)/2]
		if o.M["m"] != nil {
			m = "m"
		}
		p = append(p, m)
		o = o.M[m]
	}
	if len(p) > 0 {
		in.paths = append(in.paths, p, p[:1])
	}
	if in.model.K == KDict {
		in.names = in.model.keys()
	}
	return in
}

type cRec struct {
	Id   string
	Size int
	Ok   bool
	Tags []string
	Meta map[string]string
	Next *cRec
	More []cRec
}

type cop struct {
	name string
	// f returns the number of bytes produced, -1 when the call does not apply
	f func(in *cin) int
	// perCall: the cost does not depend on the size of the document at all
	perCall bool
	noTime  bool
	// objects are built
	inserts bool
}

func cErr(err error) {
	if err != nil {
		panic(failure{fmt.Sprintf("unexpected error %v", err)})
	}
}

var cSink interface{}

var cOps = []cop{
	{name: "ParseString", inserts: true, f: func(in *cin) int { o, err := J.ParseString(in.text); cErr(err); cSink = o; return 0 }},
	{name: "ParseStream at an offset", inserts: true, f: func(in *cin) int {
		o, _, err := J.ParseStream(in.stream, len(in.text)+1)
		cErr(err)
		cSink = o
		return 0
	}},
	{name: "ParseJsonStreams", inserts: true, f: func(in *cin) int {
		o, err := J.ParseJsonStreams(in.stream)
		cErr(err)
		cSink = o
		return len(in.stream)
	}},
	{name: "ParseJsonStreams of many documents", f: func(in *cin) int {
		o, err := J.ParseJsonStreams(in.many)
		cErr(err)
		if len(o) != in.manyDocs {
			panic(failure{fmt.Sprintf("%d documents instead of %d", len(o), in.manyDocs)})
		}
		cSink = o
		return len(in.many)
	}},
	{name: "Parse of the cut text", inserts: true, f: func(in *cin) int {
		n := 0
		for _, k := range []int{len(in.text) / 2, len(in.text) - 1} {
			_, err := J.ParseString(in.text[:k])
			if err == nil {
				panic(failure{"a text that is cut off is read"})
			}
			n += len(err.Error())
			_, _, err = J.ParseStream([]byte(in.text[:k]), 0)
			n += len(err.Error())
		}
		// (the messages themselves are short)
		if n > 4000 {
			panic(failure{fmt.Sprintf("the messages for a text of %d bytes that is cut off have %d bytes", len(in.text), n)})
		}
		return 0
	}},
	{name: "Parse of the text with a mistake", inserts: true, f: func(in *cin) int {
		_, err := J.ParseString(in.broken)
		if err == nil {
			return -1
		}
		if n := len(err.Error()); n > 1000 {
			panic(failure{fmt.Sprintf("the message for a text of %d bytes with a mistake has %d bytes", len(in.text), n)})
		}
		return 0
	}},
	{name: "Parse of the pretty form", inserts: true, f: func(in *cin) int {
		o, err := J.ParseString(in.pretty)
		cErr(err)
		cSink = o
		return len(in.pretty)
	}},
	{name: "ParseQueryString", inserts: true, f: func(in *cin) int {
		if in.query == "" {
			return -1
		}
		o, err := J.ParseQueryString(in.query)
		cErr(err)
		cSink = o
		return len(in.query)
	}},
	{name: "ParseYAML", inserts: true, noTime: true, f: func(in *cin) int {
		o, err := J.ParseYAML(in.yaml)
		cErr(err)
		cSink = o
		return len(in.yaml)
	}},
	{name: "String", f: func(in *cin) int { return len(in.doc.String()) }},
	{name: "PrettyString", f: func(in *cin) int { return len(in.doc.PrettyString()) }},
	{name: "YAMLString", noTime: true, f: func(in *cin) int { return len(in.doc.YAMLString()) }},
	{name: "QueryString", f: func(in *cin) int { return len(in.doc.QueryString()) + in.dotted }},
	{name: "DeepCopy", inserts: true, f: func(in *cin) int { cSink = J.DeepCopy(in.doc); return 0 }},
	{name: "Copy", inserts: true, f: func(in *cin) int {
		switch o := in.doc.(type) {
		case *J.JSONDict:
			cSink = o.Copy("a", "b")
		case *J.JSONArray:
			cSink = o.Copy()
		}
		return 0
	}},
	{name: "CopyIncludes", inserts: true, f: func(in *cin) int {
		o, ok := in.doc.(*J.JSONDict)
		if !ok {
			return -1
		}
		cSink = o.CopyIncludes("a", "m", cKey(5))
		return 0
	}},
	{name: "Equals", f: func(in *cin) int {
		if !in.doc.Equals(in.twin) {
			panic(failure{"equal documents are different"})
		}
		return 0
	}},
	{name: "Equals of another", f: func(in *cin) int {
		if in.doc.Equals(in.near) {
			panic(failure{"different documents are equal"})
		}
		return 0
	}},
	{name: "Interface", inserts: true, f: func(in *cin) int { cSink = in.doc.Interface(); return 0 }},
	{name: "Marshal of plain values", inserts: true, f: func(in *cin) int { cSink = J.Marshal(in.plain); return 0 }},
	{name: "MarshalAll of plain values", inserts: true, f: func(in *cin) int { cSink = J.MarshalAll(in.plain); return 0 }},
	{name: "Marshal of a document", inserts: true, f: func(in *cin) int {
		cSink = J.Marshal(map[string]interface{}{"doc": in.doc, "list": []J.JSONObject{in.doc}})
		return 0
	}},
	{name: "Unmarshal of members", inserts: true, f: func(in *cin) int {
		switch in.doc.(type) {
		case *J.JSONDict:
			m := map[string]J.JSONObject{}
			cErr(in.doc.Unmarshal(&m))
			cSink = m
		case *J.JSONArray:
			var l []J.JSONObject
			cErr(in.doc.Unmarshal(&l))
			cSink = l
		}
		return 0
	}},
	{name: "Unmarshal into texts", inserts: true, f: func(in *cin) int {
		n := 0
		switch in.doc.(type) {
		case *J.JSONDict:
			m := map[string]string{}
			cErr(in.doc.Unmarshal(&m))
			for _, s := range m {
				n += len(s)
			}
		case *J.JSONArray:
			var l []string
			cErr(in.doc.Unmarshal(&l))
			for _, s := range l {
				n += len(s)
			}
		}
		return n
	}},
	{name: "Diff", inserts: true, f: func(in *cin) int {
		a, ok := in.doc.(*J.JSONDict)
		b, ok2 := in.near.(*J.JSONDict)
		if !ok || !ok2 {
			return -1
		}
		cSink, _, _, _ = J.Diff(a, b)
		return 0
	}},
	{name: "Update", inserts: true, f: func(in *cin) int {
		a, ok := in.doc.(*J.JSONDict)
		if !ok {
			return -1
		}
		d := J.NewDict()
		d.Set(cKey(3), J.JSONTrue)
		d.Update(a)
		d.UpdateDefault(a)
		d.Update(in.near)
		cSink = d
		return 0
	}},
	{name: "building a list", f: func(in *cin) int {
		a := J.NewArray()
		for i := 0; i < in.n; i++ {
			a.Add(J.JSONTrue)
		}
		for i := 0; i < in.n; i++ {
			a.SetAt(i, J.JSONFalse)
		}
		return in.n
	}},
	{name: "building an object", inserts: true, f: func(in *cin) int {
		if in.n > 10000 {
			return -1
		}
		d := J.NewDict()
		for i := 0; i < in.n; i++ {
			d.Set(cKey(i), J.JSONTrue)
		}
		for i := in.n - 1; i > 0; i-- {
			d.Remove(cKey(i))
		}
		return in.n
	}},
	{name: "reading every member", f: func(in *cin) int {
		switch o := in.doc.(type) {
		case *J.JSONDict:
			for _, k := range o.SortedKeys() {
				x, err := o.Get(k)
				cErr(err)
				o.Contains(k)
				o.GetString("total", k)
				cSink = x
			}
		case *J.JSONArray:
			for i := 0; i < o.Length(); i++ {
				x, err := o.GetAt(i)
				cErr(err)
				cSink = x
			}
		}
		return 0
	}},
	{name: "exporting", f: func(in *cin) int {
		m, _ := in.doc.GetMap()
		l, _ := in.doc.GetArray()
		cSink = []interface{}{m, l}
		return 0
	}},
	{name: "string lists", f: func(in *cin) int {
		n := 0
		l, _ := J.GetStringArray(in.doc)
		for _, s := range l {
			n += len(s)
		}
		if in.names != nil {
			for _, s := range J.GetQueryStringArray(in.doc, in.names[0]) {
				n += len(s)
			}
		}
		return n
	}},
	{name: "required members", f: func(in *cin) int {
		if in.names == nil {
			return -1
		}
		J.CheckRequiredFields(in.doc, in.names)
		J.GetAnyString(in.doc, in.names)
		return 0
	}},
	{name: "lookups", perCall: true, f: func(in *cin) int {
		for i := 0; i < 300; i++ {
			switch o := in.doc.(type) {
			case *J.JSONDict:
				if in.names == nil {
					return -1
				}
				k := in.names[i*7919%len(in.names)]
				o.Get(k)
				o.Contains(k)
				o.Contains("missing")
				o.Size()
				o.Length()
				o.IsZero()
				o.Int("total")
			case *J.JSONArray:
				o.GetAt(i * 7919 % in.n % o.Length())
				o.GetAt(-1)
				o.Size()
				o.Length()
				o.IsZero()
			}
		}
		return 0
	}},
	{name: "edits of one member", perCall: true, f: func(in *cin) int {
		for i := 0; i < 300; i++ {
			switch o := in.doc.(type) {
			case *J.JSONDict:
				if in.names == nil {
					return -1
				}
				k := in.names[i*7919%len(in.names)]
				x, err := o.Get(k)
				if err != nil {
					return -1
				}
				o.Set(k, x)
			case *J.JSONArray:
				k := i * 7919 % in.n % o.Length()
				x, _ := o.GetAt(k)
				o.SetAt(k, x)
			}
		}
		return 0
	}},
	{name: "Get of the innermost", f: func(in *cin) int {
		if in.paths == nil {
			return -1
		}
		for i := 0; i < 20; i++ {
			o, err := in.doc.Get(in.paths[0]...)
			cErr(err)
			in.doc.Contains(in.paths[0]...)
			in.doc.GetIgnoreCases(in.paths[0]...)
			cSink = o
		}
		return 0
	}},
}

// calls on Go values
var cGo = []struct {
	name   string
	n0, n1 int
	wide   bool
	mk     func(r *Rand, n int) (val interface{}, fresh func() interface{})
}{
	{"a list of structs", 20, 1200, false, func(r *Rand, n int) (interface{}, func() interface{}) {
		l := make([]cRec, n)
		for i := range l {
			l[i] = cRec{Id: "id" + strconv.Itoa(i), Size: i, Ok: i%2 == 0, Tags: []string{"a", "b"}, Meta: map[string]string{"k": "v"}}
		}
		return l, func() interface{} { return &[]cRec{} }
	}},
	{"a list of pointers", 20, 1200, false, func(r *Rand, n int) (interface{}, func() interface{}) {
		l := make([]*cRec, n)
		for i := range l {
			l[i] = &cRec{Id: "id" + strconv.Itoa(i), Size: i + 1}
		}
		return l, func() interface{} { return &[]*cRec{} }
	}},
	{"a map of structs", 20, 1200, true, func(r *Rand, n int) (interface{}, func() interface{}) {
		m := map[string]cRec{}
		for i := 0; i < n; i++ {
			m[cKey(i)] = cRec{Id: "id", Size: i + 1}
		}
		return m, func() interface{} { return &map[string]cRec{} }
	}},
	{"a list of numbers", 200, 12000, false, func(r *Rand, n int) (interface{}, func() interface{}) {
		l := make([]int64, n)
		for i := range l {
			l[i] = int64(i) * 1000003
		}
		return l, func() interface{} { return &[]int64{} }
	}},
	{"a list of texts", 200, 12000, false, func(r *Rand, n int) (interface{}, func() interface{}) {
		l := make([]string, n)
		for i := range l {
			l[i] = "text " + strconv.Itoa(i)
		}
		return l, func() interface{} { return &[]string{} }
	}},
	{"nested structs", 20, 3000, false, func(r *Rand, n int) (interface{}, func() interface{}) {
		x := cRec{Id: "innermost"}
		for i := 0; i < n; i++ {
			x = cRec{Id: "x", Size: i + 1, More: []cRec{x}}
		}
		return x, func() interface{} { return &cRec{} }
	}},
	{"nested pointers", 20, 2000, false, func(r *Rand, n int) (interface{}, func() interface{}) {
		x := &cRec{Id: "innermost"}
		for i := 0; i < n; i++ {
			x = &cRec{Size: i + 1, Next: x}
		}
		return x, func() interface{} { return &cRec{} }
	}},
	{"a struct with a long text", 2000, 120000, false, func(r *Rand, n int) (interface{}, func() interface{}) {
		return cRec{Id: strings.Repeat("long text ", n/10), Tags: []string{strings.Repeat("x", n)}}, func() interface{} { return &cRec{} }
	}},
	{"one object many times", 20, 1200, false, func(r *Rand, n int) (interface{}, func() interface{}) {
		l := make([]*cRec, n)
		p := &cRec{Id: "the same", Tags: []string{"a"}}
		for i := range l {
			l[i] = p
		}
		return l, func() interface{} { return &[]*cRec{} }
	}},
	{"a ring in a list", 20, 1000, false, func(r *Rand, n int) (interface{}, func() interface{}) {
		l := make([]*cRec, n)
		for i := range l {
			l[i] = &cRec{Id: "self", Size: i + 1}
			l[i].Next = l[i]
		}
		return l, func() interface{} { return &[]*cRec{} }
	}},
	{"children that know their parent", 100, 9000, false, func(r *Rand, n int) (interface{}, func() interface{}) {
		p := &cKin{Name: "parent"}
		for i := 0; i < n; i++ {
			p.Kids = append(p.Kids, &cKin{Name: "child", Up: p})
		}
		return p, func() interface{} { return &cKin{} }
	}},
	{"generations that know their parents", 50, 4500, false, func(r *Rand, n int) (interface{}, func() interface{}) {
		all := []*cKin{{Name: "first"}}
		for i := 1; i < n; i++ {
			p := all[i/7]
			k := &cKin{Name: "child", Up: p}
			p.Kids = append(p.Kids, k)
			all = append(all, k)
		}
		return all[0], func() interface{} { return &cKin{} }
	}},
	{"a chain linked both ways", 20, 2000, false, func(r *Rand, n int) (interface{}, func() interface{}) {
		first := &cKin{Name: "first"}
		for i, last := 0, first; i < n; i++ {
			k := &cKin{Name: "next", Up: last}
			last.Kids = []*cKin{k}
			last = k
		}
		return first, func() interface{} { return &cKin{} }
	}},
	{"many small rings", 60, 4000, false, func(r *Rand, n int) (interface{}, func() interface{}) {
		l := make([]*cKin, n)
		for i := range l {
			l[i] = &cKin{Name: "ring"}
			l[i].Kids = []*cKin{{Name: "a", Up: l[i]}, {Name: "b", Up: l[i]}}
		}
		return l, func() interface{} { return &[]*cKin{} }
	}},
}

// cKin is linked to the values around it
type cKin struct {
	Name string
	Up   *cKin
	Kids []*cKin
}

var cGoOps = []cop{
	{name: "Marshal", inserts: true, f: func(in *cin) int { cSink = J.Marshal(in.typed); return 0 }},
	{name: "MarshalAll", inserts: true, f: func(in *cin) int { cSink = J.MarshalAll(in.typed); return len(in.text) }},
	{name: "Unmarshal", inserts: true, f: func(in *cin) int { p := in.fresh(); cErr(in.tdoc.Unmarshal(p)); cSink = p; return 0 }},
	{name: "Unmarshal into a filled value", inserts: true, f: func(in *cin) int {
		p := in.fresh()
		cErr(in.tdoc.Unmarshal(p))
		cErr(in.tdoc.Unmarshal(p))
		cSink = p
		return 0
	}},
	{name: "String", f: func(in *cin) int { return len(in.tdoc.String()) }},
	{name: "PrettyString", f: func(in *cin) int { return len(in.tdoc.PrettyString()) }},
	{name: "Parse", inserts: true, f: func(in *cin) int { o, err := J.ParseString(in.text); cErr(err); cSink = o; return 0 }},
	{name: "DeepCopy", inserts: true, f: func(in *cin) int { cSink = J.DeepCopy(in.tdoc); return 0 }},
	{name: "Equals", f: func(in *cin) int { in.tdoc.Equals(in.twin); return 0 }},
	{name: "Interface", inserts: true, f: func(in *cin) int { cSink = in.tdoc.Interface(); return 0 }},
	{name: "Update", inserts: true, f: func(in *cin) int {
		t := reflect.TypeOf(in.typed)
		if t.Kind() != reflect.Struct {
			return -1
		}
		p := in.fresh()
		cErr(J.Update(p, in.typed))
		cSink = p
		return 0
	}},
}

type cost struct {
	alloc float64
	time  float64
	io    float64
	calls int
}

func measure(op *cop, in *cin, reps int, before cost) (ret cost, ok bool) {
	var a, b runtime.MemStats
	out := 0
	runtime.ReadMemStats(&a)
	t := threadTime()
	for i := 0; i < reps; i++ {
		out = op.f(in)
		if out < 0 {
			return ret, false
		}
	}
	d := (threadTime() - t) / float64(reps)
	runtime.ReadMemStats(&b)
	cSink = nil
	ret.alloc = float64(b.TotalAlloc-a.TotalAlloc) / float64(reps)
	ret.time = d
	if before.calls > 0 {
		ret.time = math.Min(ret.time, before.time)
		ret.alloc = math.Min(ret.alloc, before.alloc)
	}
	ret.calls = before.calls + 1
	ret.io = float64(len(in.text) + out)
	if b.HeapAlloc > 600<<20 {
		runtime.GC()
	}
	return ret, true
}

func c25Measure(c *Ctx, what string, ops []cop, small, large *cin, wide bool) {
	for k := range ops {
		op := &ops[k]
		var s, l cost
		ok := true
		p := try(func() {
			_, ok = measure(op, small, 1, cost{}) // warm
			for i := 0; i < 3 && ok; i++ {
				s, ok = measure(op, small, 3, s)
			}
			if ok {
				l, ok = measure(op, large, 1, l)
			}
		})
		if p != nil {
			c.Fail("%s of %s panics: %v", op.name, what, p)
		}
		if !ok {
			continue
		}
		timed := !op.noTime
		bad := func() string {
			if op.perCall {
				if l.alloc > 4*s.alloc+40000 {
					return fmt.Sprintf("300 calls allocate %.0f bytes on a document of %.0f bytes and %.0f on one of %.0f", s.alloc, s.io, l.alloc, l.io)
				}
				if timed && l.time > 12*s.time+30000 {
					return fmt.Sprintf("300 calls take %.0f ns on a document of %.0f bytes and %.0f ns on one of %.0f", s.time, s.io, l.time, l.io)
				}
				return ""
			}
			if l.alloc/l.io > 4*s.alloc/s.io+30 {
				return fmt.Sprintf("allocates %.0f bytes for %.0f bytes of input and output, but %.0f for %.0f", s.alloc, s.io, l.alloc, l.io)
			}
			if timed && l.time/l.io > 12*s.time/s.io+8 {
				return fmt.Sprintf("takes %.0f ns for %.0f bytes of input and output, but %.0f ns for %.0f", s.time, s.io, l.time, l.io)
			}
			return ""
		}
		for i := 0; i < 8 && bad() != ""; i++ {
			runtime.GC()
			l, _ = measure(op, large, 1, l)
		}
		c.Ev("calls_measured", s.calls+l.calls)
		c.Ev("growth_judged", 1)
		if timed {
			c.Ev("time_judged", 1)
		}
		if b := bad(); b != "" && timing {
			fmt.Printf("BAD %s of %s %s\n", op.name, what, b)
		} else if b != "" {
			c.Fail("%s of %s %s", op.name, what, b)
		}
		if timing {
			fmt.Printf("GROWTH %-28s %-28s alloc %8.1f %8.1f x%.2f  ns %8.1f %8.1f x%.2f\n", op.name, clip(what, 28), s.alloc/s.io, l.alloc/l.io, (l.alloc/l.io+1)/(s.alloc/s.io+1), s.time/s.io, l.time/l.io, (l.time/l.io)/(s.time/s.io+0.01))
		}
		c.Distinct(op.name, what, small.text, fmt.Sprint(large.n))
	}
}

func c25Setup() func() {
	runtime.LockOSThread()
	old := debug.SetGCPercent(-1)
	lim := debug.SetMemoryLimit(2500 << 20)
	runtime.GC()
	return func() {
		debug.SetGCPercent(old)
		debug.SetMemoryLimit(lim)
		runtime.UnlockOSThread()
	}
}

func c25Docs(c *Ctx, i int) {
	r := c.R
	defer c25Setup()()
	s := cShapes[i%len(cShapes)]
	seed := r.Uint64()
	n0, n1 := s.n0, s.n1
	if c.tier {
		n0 += r.N(s.n0)
		n1 += r.N(2 * s.n1)
	}
	small, large := s.prepare(c, seed, n0), s.prepare(c, seed, n1)
	c25Measure(c, s.name, cOps, small, large, s.wide)
	c.Ev("shapes", 1)
	c.Sample("%s: %d bytes %s, and %d bytes", s.name, len(small.text), clip(small.text, 100), len(large.text))
}

func c25Values(c *Ctx, i int) {
	r := c.R
	defer c25Setup()()
	g := cGo[i%len(cGo)]
	mk := func(n int) *cin {
		in := &cin{n: n}
		in.typed, in.fresh = g.mk(r, n)
		in.tdoc = J.Marshal(in.typed)
		in.text = in.tdoc.String()
		in.twin, _ = J.ParseString(in.text)
		return in
	}
	n1 := g.n1
	if c.tier {
		n1 += r.N(2 * g.n1)
	}
	c25Measure(c, g.name, cGoOps, mk(g.n0), mk(n1), g.wide)
	c.Ev("shapes", 1)
	c.Sample("%s, %d and %d parts", g.name, g.n0, g.n1)
}

func init() {
	register(&Prop{
		ID:     "C25",
		Serial: true,
		Rule:   "22 shapes of documents and 14 of Go values, each made small and 25 to 60 times larger; 35 kinds of calls run on both under a monitor of the bytes allocated (exact counter) and of the processor time of the thread; distinct (call, shape, content) count",
		Assume: []string{
			"allocation may grow by a factor of 4 per byte of input and output from the small to the large document, time by a factor of 12, with the least of up to 9 measurements counting: quadratic cost gives 25 to 60",
			"time is not judged for YAML (another library's), and for building objects of thousands of members, which moves them",
			"documents, whole, cut off or with one mistake; not malformed streams, where every bracket is a new start",
		},
		W: []Workload{
			{Name: "documents", N: counts(3*len(cShapes), 60*len(cShapes)), Run: c25Docs},
			{Name: "values", N: counts(2*len(cGo), 40*len(cGo)), Run: c25Values},
		},
		MinEv: map[string]int64{"growth_judged": 1000, "time_judged": 800, "shapes": 70},
	})
}
