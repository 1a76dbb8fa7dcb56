package main

import (
	"strconv"

	J "yunion.io/x/jsonutils"
)

// types that share their name, as those of different functions or packages
// do: what is known of one must not be used for another

type twin struct {
	fresh func() interface{}
	// fill sets the three values, get reads them
	fill func(x interface{}, a, b string, n int)
	get  func(x interface{}) (string, string, int)
	// the text of a marshalled value
	text func(a, b string, n int) string
}

func twinOne() twin {
	type Rec struct {
		A string `json:"a"`
		B string `json:"b"`
		N int    `json:"n"`
	}
	return twin{
		func() interface{} { return &Rec{} },
		func(x interface{}, a, b string, n int) { r := x.(*Rec); r.A, r.B, r.N = a, b, n },
		func(x interface{}) (string, string, int) { r := x.(*Rec); return r.A, r.B, r.N },
		func(a, b string, n int) string {
			return `{"a":"` + a + `","b":"` + b + `","n":` + strconv.Itoa(n) + `}`
		},
	}
}

func twinTwo() twin {
	type Rec struct {
		N int    `json:"n,string"`
		B string `json:"b"`
		A string `json:"a"`
	}
	return twin{
		func() interface{} { return &Rec{} },
		func(x interface{}, a, b string, n int) { r := x.(*Rec); r.A, r.B, r.N = a, b, n },
		func(x interface{}) (string, string, int) { r := x.(*Rec); return r.A, r.B, r.N },
		func(a, b string, n int) string {
			return `{"a":"` + a + `","b":"` + b + `","n":"` + strconv.Itoa(n) + `"}`
		},
	}
}

func twinThree() twin {
	type Part struct {
		B string `json:"b"`
	}
	type Rec struct {
		Part
		Old string `json:"old" yunion-deprecated-by:"a"`
		A   string `json:"a"`
		N   int    `json:"n,omitzero"`
	}
	return twin{
		func() interface{} { return &Rec{} },
		func(x interface{}, a, b string, n int) { r := x.(*Rec); r.A, r.B, r.N = a, b, n },
		func(x interface{}) (string, string, int) { r := x.(*Rec); return r.A, r.B, r.N },
		func(a, b string, n int) string {
			s := `{"a":"` + a + `","b":"` + b + `"`
			if n != 0 {
				s += `,"n":` + strconv.Itoa(n)
			}
			return s + `,"old":"` + a + `"}`
		},
	}
}

func twinFour() twin {
	type Part struct {
		N int    `json:"n"`
		A string `json:"a"`
	}
	type Rec struct {
		B string `json:"b"`
		*Part
	}
	return twin{
		func() interface{} { return &Rec{} },
		func(x interface{}, a, b string, n int) { r := x.(*Rec); r.Part = &Part{n, a}; r.B = b },
		func(x interface{}) (string, string, int) {
			r := x.(*Rec)
			if r.Part == nil {
				return "", r.B, 0
			}
			return r.A, r.B, r.N
		},
		twinOne().text,
	}
}

func twinFive() twin {
	type Rec struct {
		X string `json:"b"`
		Y string `json:"a"`
		B string `json:"-"`
		A int    `json:"n"`
	}
	return twin{
		func() interface{} { return &Rec{} },
		func(x interface{}, a, b string, n int) { r := x.(*Rec); r.Y, r.X, r.A = a, b, n },
		func(x interface{}) (string, string, int) { r := x.(*Rec); return r.Y, r.X, r.A },
		twinOne().text,
	}
}

var twins = []twin{twinOne(), twinTwo(), twinThree(), twinFour(), twinFive()}

func twinsWorkload() Workload {
	return Workload{Name: "twins", N: counts(2000, 20000), Run: func(c *Ctx, i int) {
		r := c.R
		for k := 0; k < 6; k++ {
			j := r.N(len(twins))
			t := twins[j]
			a, b, n := pick(r, simpleWords), pick(r, simpleWords), r.N(4)*r.N(1000)
			if a == "" || b == "" {
				a, b = "p", "q"
			}
			x := t.fresh()
			t.fill(x, a, b, n)
			var doc J.JSONObject
			switch r.N(3) {
			case 0:
				doc = J.Marshal(x)
			case 1:
				l, err := J.Marshal([]interface{}{x}).GetArray()
				c.Check(err == nil && len(l) == 1, "%v", err)
				doc = l[0]
			default:
				doc, _ = J.Marshal(map[string]interface{}{"x": x}).Get("x")
			}
			want := t.text(a, b, n)
			if got := doc.String(); got != want {
				c.Fail("type %d of those with one name is marshalled to %s instead of %s", j+1, got, want)
			}
			doc, _ = J.ParseString(want)
			y := t.fresh()
			err := doc.Unmarshal(y)
			c.Check(err == nil, "type %d of those with one name, unmarshalled from %s: %v", j+1, want, err)
			if ga, gb, gn := t.get(y); ga != a || gb != b || gn != n {
				c.Fail("type %d of those with one name, unmarshalled from %s, holds %q, %q and %d", j+1, want, ga, gb, gn)
			}
			// one member of a filled value
			z := t.fresh()
			t.fill(z, "va", "vb", 77)
			doc, _ = J.ParseString(`{"b":"` + b + `"}`)
			err = doc.Unmarshal(z)
			c.Check(err == nil, "%v", err)
			if ga, gb, gn := t.get(z); ga != "va" || gb != b || gn != 77 {
				c.Fail("type %d of those with one name, updated by %s, holds %q, %q and %d", j+1, doc, ga, gb, gn)
			}
			c.Ev("types_of_one_name", 1)
		}
	}}
}
