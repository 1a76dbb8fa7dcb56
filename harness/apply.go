package main

import (
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	J "yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

// resolve replaces the marks of the reference by texts
func resolve(d *V) *V {
	switch d.K {
	case KStr:
		if d.S == "\x00float" {
			bits := 64
			if d.F32 {
				bits = 32
			}
			return vStr(strconv.FormatFloat(d.F, 'f', -1, bits))
		}
		if d.S == "\x00time" {
			return vStr(time.UnixMicro(d.I).UTC().Format("2006-01-02T15:04:05.000000Z"))
		}
	case KArr:
		ret := vArr()
		for _, x := range d.A {
			ret.A = append(ret.A, resolve(x))
		}
		return ret
	case KDict:
		ret := vDict()
		for k, x := range d.M {
			ret.M[k] = resolve(x)
		}
		return ret
	}
	return d
}

// field finds the field of a member name
func (t *T) field(name string) (flatField, bool) {
	fl := t.flat()
	for _, f := range fl {
		if !f.f.Ignore && f.f.Name == name {
			return f, true
		}
	}
	for _, f := range fl {
		if !f.f.Ignore && (f.f.Snake == name || f.f.Go == name || f.f.Go == strings.ToUpper(name[:min(1, len(name))])+name[min(1, len(name)):]) {
			return f, true
		}
	}
	return flatField{}, false
}

// aliases lists other names under which a member finds its field
func (t *T) aliases(f *Fld) []string {
	var ret []string
	for _, n := range []string{f.Snake, f.Go, strings.ToLower(f.Go[:1]) + f.Go[1:]} {
		if n == f.Name {
			continue
		}
		if g, ok := t.field(n); ok && g.f == f {
			ret = append(ret, n)
		}
	}
	return ret
}

// refApply is the reference of unmarshalling a fitting document d (whose
// document is o) into v
func refApply(t *T, v reflect.Value, d *V, o J.JSONObject) {
	if d.K == KNull {
		v.Set(reflect.Zero(v.Type()))
		return
	}
	switch t.K {
	case tBool:
		if d.K == KStr {
			v.SetBool(d.S == "true")
		} else {
			v.SetBool(d.B)
		}
	case tInt:
		if d.K == KStr {
			n, _ := strconv.ParseInt(d.S, 10, 64)
			v.SetInt(n)
		} else {
			v.SetInt(d.I)
		}
	case tUint:
		if d.K == KStr {
			n, _ := strconv.ParseUint(d.S, 10, 64)
			v.SetUint(n)
		} else {
			v.SetUint(uint64(d.I))
		}
	case tF32, tF64:
		switch d.K {
		case KStr:
			n, _ := strconv.ParseFloat(d.S, 64)
			v.SetFloat(n)
		case KInt:
			v.SetFloat(float64(d.I))
		default:
			v.SetFloat(d.F)
		}
	case tStr:
		v.SetString(d.S)
	case tTime:
		if d.S == "" {
			v.Set(reflect.ValueOf(time.Time{}))
			return
		}
		tm, err := time.Parse(time.RFC3339Nano, d.S)
		if err != nil {
			panic(err)
		}
		v.Set(reflect.ValueOf(tm))
	case tTri:
		v.Set(reflect.ValueOf(tristate.NewFromBool(d.B)))
	case tDocObj, tDocPtr, tDocVal:
		if t.K != tDocObj && t.Doc == KFloat && d.K == KInt {
			// an integral float that was read from a text
			d = vFloat(float64(d.I))
		}
		if t.K == tDocVal && t.Doc == KDict {
			// members are added or replaced
			all := observe(docValObj(v))
			for k, x := range d.M {
				all.M[k] = x
			}
			d = all
		}
		if t.K == tDocVal {
			v.Set(reflect.ValueOf(build(d)).Elem())
			return
		}
		v.Set(reflect.ValueOf(build(d)))
	case tStd:
		p := v.Addr().Interface().(interface{ UnmarshalJSON([]byte) error })
		if err := p.UnmarshalJSON([]byte(o.String())); err != nil {
			panic(err)
		}
	case tSlice:
		v.Set(reflect.MakeSlice(v.Type(), len(d.A), len(d.A)))
		a, _ := o.GetArray()
		for i := range d.A {
			refApply(t.Elem, v.Index(i), d.A[i], a[i])
		}
	case tArray:
		a, _ := o.GetArray()
		for i := range d.A {
			refApply(t.Elem, v.Index(i), d.A[i], a[i])
		}
	case tMap:
		if v.IsNil() {
			v.Set(reflect.MakeMap(v.Type()))
		}
		m, _ := o.GetMap()
		for k, x := range d.M {
			e := reflect.New(t.Elem.RT).Elem()
			refApply(t.Elem, e, x, m[k])
			v.SetMapIndex(reflect.ValueOf(k).Convert(v.Type().Key()), e)
		}
	case tPtr:
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		refApply(t.Elem, v.Elem(), d, o)
	case tStruct:
		m, _ := o.GetMap()
		for k, x := range d.M {
			seen := map[*Fld]bool{}
			for name := k; name != ""; {
				f, ok := t.field(name)
				if !ok || seen[f.f] {
					break
				}
				seen[f.f] = true
				fv, _ := at(v, f.path, true)
				refApply(f.f.T, fv, x, m[k])
				name = f.f.Dep
			}
		}
	default:
		panic("kind")
	}
}

func memberOf(o J.JSONObject, k string) J.JSONObject {
	m, _ := o.GetMap()
	return m[k]
}

// partial prunes a full document of a type: members left out, set to null,
// renamed to another spelling, unknown ones added
func (r *Rand) partial(t *T, d *V, keep int) *V {
	switch {
	case d.K == KNull:
		return d
	case t.K == tPtr:
		return r.partial(t.Elem, d, keep)
	case t.K == tSlice && d.K == KArr:
		ret := vArr()
		for _, x := range d.A {
			ret.A = append(ret.A, r.partial(t.Elem, x, keep))
		}
		return ret
	case t.K == tMap && d.K == KDict:
		ret := vDict()
		for _, k := range d.keys() {
			ret.M[k] = r.partial(t.Elem, d.M[k], keep)
		}
		return ret
	case t.K == tStruct && d.K == KDict:
		ret := vDict()
		for _, k := range d.keys() {
			if r.N(10) >= keep {
				continue
			}
			f, ok := t.field(k)
			if !ok {
				panic("no field " + k)
			}
			x := r.partial(f.f.T, d.M[k], keep)
			if r.P(1, 12) {
				x = vNull()
			}
			if al := t.aliases(f.f); len(al) > 0 && r.P(1, 6) {
				k = pick(r, al)
			}
			ret.M[k] = x
		}
		if r.P(1, 3) {
			ret.M["zz unknown "+strconv.Itoa(r.N(5))] = pick(r, []*V{vInt(1), vStr("x"), vNull(), vArr(vInt(1)), vDict()})
		}
		return ret
	}
	return d
}

// misfit makes a value that cannot be stored in the type, nil if there is none
func (r *Rand) misfit(t *T) *V {
	arr := vArr(vInt(1), vStr("x"))
	dict := &V{K: KDict, M: map[string]*V{"zz": vInt(1)}}
	word := vStr(pick(r, []string{"word", "1x", "x1", "--1", "1 2", "0x", "\x00", "１", "1,2,3x", "nil"}))
	switch t.K {
	case tBool:
		return pick(r, []*V{arr, dict})
	case tInt, tUint, tF32, tF64:
		return pick(r, []*V{arr, dict, word})
	case tTri:
		return pick(r, []*V{arr, dict})
	case tTime:
		return pick(r, []*V{arr, dict, vInt(5), vBool(true), vFloat(1.5)})
	case tDocPtr, tDocVal:
		switch t.Doc {
		case KDict:
			return pick(r, []*V{arr, vInt(3), vStr("x"), vBool(true), vFloat(2.5)})
		case KArr:
			return pick(r, []*V{dict, vInt(3), vStr("x"), vBool(true), vFloat(2.5)})
		case KStr:
			return pick(r, []*V{arr, dict})
		case KInt, KFloat:
			return pick(r, []*V{arr, dict, vBool(r.P(1, 2)), word})
		case KBool:
			return pick(r, []*V{arr, dict, vInt(r.int64v())})
		}
	case tStd:
		switch t.RT {
		case rt[StdPoint]():
			return pick(r, []*V{dict, vInt(1), vStr("x")})
		case rt[StdName]():
			return pick(r, []*V{arr, vInt(1), vStr("x")})
		case rt[StdNum]():
			return pick(r, []*V{arr, dict, vInt(1), vStr("x")})
		case rt[StdFloat]():
			return pick(r, []*V{arr, dict, vStr("x")})
		}
	case tSlice:
		if x := r.misfit(t.Elem); x != nil && r.P(1, 2) {
			// an element that does not fit
			a := vArr(x)
			for i := r.N(3); i > 0; i-- {
				a.A = append(a.A, vNull())
			}
			return a
		}
		return pick(r, []*V{dict, vInt(3), vBool(true), vFloat(2.5)})
	case tArray:
		a := vArr()
		for i := 0; i < t.N+1+r.N(2); i++ {
			a.A = append(a.A, vNull())
		}
		if x := r.misfit(t.Elem); x != nil && r.P(1, 3) && t.N > 0 {
			a.A = a.A[:t.N]
			a.A[r.N(t.N)] = x
			return a
		}
		if r.P(1, 3) && t.N > 0 {
			a.A = a.A[:t.N-1]
		}
		return pick(r, []*V{dict, vInt(3), vBool(true), vFloat(2.5), vStr("x"), a, a})
	case tMap:
		if x := r.misfit(t.Elem); x != nil && r.P(1, 2) {
			ret := vDict()
			if r.P(1, 2) {
				ret.M["null"] = vNull()
			}
			ret.M[r.key(sAny)] = x
			return ret
		}
		return pick(r, []*V{arr, vInt(3), vBool(true), vFloat(2.5), vStr("x")})
	case tStruct:
		return pick(r, []*V{arr, vInt(3), vBool(true), vFloat(2.5), vStr("x")})
	case tPtr:
		return r.misfit(t.Elem)
	}
	return nil
}

// docFor makes a document that fits a type more or less
func (r *Rand) docFor(t *T, wild int) *V {
	if r.N(20) < wild {
		g := genOpt{maxSize: 8, depth: 2, nan: r.P(1, 10), f32: true}
		b := 8
		if r.P(1, 3) {
			return r.scalar(&g)
		}
		return r.tree(&g, 2, &b, true)
	}
	switch t.K {
	case tBool:
		return vBool(r.P(1, 2))
	case tInt, tUint:
		return vInt(r.int64v())
	case tF32, tF64:
		return vFloat(r.float())
	case tTime:
		return resolve(&V{K: KStr, S: "\x00time", I: r.timeVal().UnixMicro()})
	case tTri:
		return vBool(r.P(1, 2))
	case tSlice:
		ret := vArr()
		for i := r.N(4); i > 0; i-- {
			ret.A = append(ret.A, r.docFor(t.Elem, wild))
		}
		return ret
	case tArray:
		ret := vArr()
		for i := 0; i < t.N; i++ {
			ret.A = append(ret.A, r.docFor(t.Elem, wild))
		}
		return ret
	case tMap:
		ret := vDict()
		for i := r.N(4); i > 0; i-- {
			ret.M[r.key(sAny)] = r.docFor(t.Elem, wild)
		}
		return ret
	case tPtr:
		if r.P(1, 8) {
			return vNull()
		}
		return r.docFor(t.Elem, wild)
	case tStruct:
		ret := vDict()
		for _, f := range t.flat() {
			if r.P(1, 4) {
				continue
			}
			n := f.f.Name
			if r.P(1, 6) {
				n = pick(r, []string{f.f.Go, f.f.Snake, strings.ToUpper(f.f.Name)})
			}
			ret.M[n] = r.docFor(f.f.T, wild)
		}
		return ret
	default:
		g := genOpt{maxSize: 6, depth: 2}
		b := 6
		return r.tree(&g, 2, &b, r.P(1, 2))
	}
}

func hasNaN(v *V) bool {
	return v.any(func(x *V) bool { return x.K == KFloat && (math.IsNaN(x.F) || math.IsInf(x.F, 0)) })
}
