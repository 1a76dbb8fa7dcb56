package main

import (
	"fmt"
	"strconv"
	"strings"

	J "yunion.io/x/jsonutils"
)

func mustReject(c *Ctx, what, text, bad string) {
	c.Ev("damaged_"+what, 1)
	if o, err := J.Parse([]byte(bad)); err == nil || o != nil {
		c.Fail("%s of %s is accepted: Parse(%s) = %s", what, q(text), q(bad), clip(fmt.Sprint(o), 500))
	}
	if o, _, err := J.ParseStream([]byte(bad), 0); err == nil || o != nil {
		c.Fail("%s of %s is accepted by ParseStream: %s", what, q(text), q(bad))
	}
}

// otherEnd is a character that ends no object and no array
func otherEnd(r *Rand) byte {
	if r.P(1, 3) {
		for {
			b := byte(r.N(256))
			if b != ']' && b != '}' && b != '"' && b != '\'' && b != '\\' {
				return b
			}
		}
	}
	return pick(r, []byte(" \n,:;()>)<[{0719-+.exXnltf#/*=|\x00_"))
}

func damage(c *Ctx, t *texter, all bool) {
	text := t.sb.String()
	if o, err := J.ParseString(text); err != nil || o == nil {
		c.Fail("the undamaged text %s is rejected: %v", q(text), err)
	}
	n := len(text)
	try := func(cut int) { mustReject(c, "prefix", text, text[:cut]) }
	if all || n <= 300 {
		for cut := 0; cut < n; cut++ {
			try(cut)
		}
	} else {
		for cut := 0; cut < 60; cut++ {
			try(cut)
			try(n - 1 - cut)
			try(c.R.N(n))
		}
		for _, m := range t.marks {
			if c.R.P(1, 1+len(t.marks)/60) {
				try(m.pos)
				if m.pos+1 < n {
					try(m.pos + 1)
				}
			}
		}
	}
	repl := func(pos int, s byte) string { return text[:pos] + string([]byte{s}) + text[pos+1:] }
	for _, m := range t.marks {
		if len(t.marks) > 200 && !c.R.P(200, len(t.marks)) {
			continue
		}
		switch m.c {
		case ',':
			mustReject(c, "text with a comma replaced by a space", text, repl(m.pos, " \t\r\n"[c.R.N(4)]))
		case ':':
			mustReject(c, "text with a colon replaced by a space", text, repl(m.pos, " \t\r\n"[c.R.N(4)]))
		case ']':
			mustReject(c, "text with ] replaced by }", text, repl(m.pos, '}'))
			mustReject(c, "text with ] replaced by another character", text, repl(m.pos, otherEnd(c.R)))
		case '}':
			mustReject(c, "text with } replaced by ]", text, repl(m.pos, ']'))
			mustReject(c, "text with } replaced by another character", text, repl(m.pos, otherEnd(c.R)))
		}
	}
	hex := hexDigits(text)
	for k := 0; k < len(hex) && k < 40; k++ {
		pos := hex[k]
		if len(hex) > 40 {
			pos = pick(c.R, hex)
		}
		mustReject(c, "text with a hex digit replaced", text, repl(pos, notHex(c.R)))
	}
}

// hexDigits finds the places of the digits of \u escapes
func hexDigits(text string) (ret []int) {
	in := false
	for i := 0; i < len(text); i++ {
		switch {
		case text[i] == '"':
			in = !in
		case in && text[i] == '\\':
			i++
			if i < len(text) && text[i] == 'u' {
				ret = append(ret, i+1, i+2, i+3, i+4)
				i += 4
			}
		}
	}
	return ret
}

func notHex(r *Rand) byte {
	for {
		b := pick(r, []byte("/:;<=>?@GHgh`xuO _-+.\"\\'{[,}]"))
		if r.P(1, 3) {
			b = byte(r.N(256))
		}
		if strings.IndexByte("0123456789abcdefABCDEF", b) < 0 {
			return b
		}
	}
}

func init() {
	register(&Prop{
		ID:   "C03",
		Rule: "every proper prefix of generated objects, arrays and strings up to 300 bytes (sampled prefixes of larger ones, all structural positions), every comma and colon blanked, every closing bracket swapped and replaced by another character, digits of escapes replaced by what is none; distinct undamaged texts count",
		Assume: []string{
			"the undamaged texts are standard JSON; the library accepts some non-standard texts on purpose, which are not used",
		},
		MinEv: map[string]int64{"damaged_prefix": 100000, "damaged_text with a hex digit replaced": 5000},
		W: []Workload{
			{Name: "documents", N: counts(3500, 400000), Run: func(c *Ctx, i int) {
				var v *V
				o := genOpt{maxSize: 14, depth: 4}
				if c.R.P(1, 10) {
					o.maxSize = 80
				}
				for v == nil || v.K != KArr && v.K != KDict && v.K != KStr {
					v = c.R.doc(o)
				}
				t := &texter{r: c.R, l: pick(c.R, []layout{layoutPlain, layoutWild, {ws: 2}, {escapes: true}})}
				if c.R.P(1, 4) {
					t.sb.WriteString(" \n")
				}
				t.val(v, 0)
				c.Sample("%s", q(t.sb.String()))
				c.Distinct(t.sb.String())
				damage(c, t, false)
			}},
			{Name: "strings", N: counts(2500, 200000), Run: func(c *Ctx, i int) {
				// strings with many escapes, cut anywhere, in objects and arrays
				s := ""
				for n := c.R.N(6); n >= 0; n-- {
					s += pick(c.R, []string{"\\", "\"", "\n", "\U0001F600", "é", "a", "'", "\x00", "\\u0041", "]", "}", ",", ":", "{", "["})
				}
				v := pick(c.R, []*V{vStr(s), vArr(vStr(s)), {K: KDict, M: map[string]*V{s: vStr(s)}}, vArr(vInt(1), vStr(s), vDict()), vArr(vArr(vStr(s)))})
				t := &texter{r: c.R, l: layout{escapes: true}}
				t.val(v, 0)
				c.Distinct(t.sb.String())
				damage(c, t, true)
			}},
			{Name: "small", N: fixed(9 * 9 * 9), Run: func(c *Ctx, i int) {
				// all small shapes
				el := []func() *V{
					func() *V { return vArr() }, vDict, vNull,
					func() *V { return vInt(12) }, func() *V { return vStr("") }, func() *V { return vStr("ab") },
					func() *V { return vArr(vInt(1)) }, func() *V { return &V{K: KDict, M: map[string]*V{"a": vBool(true)}} },
					func() *V { return vFloat(1.5) },
				}
				a, b, d := el[i%9](), el[i/9%9](), el[i/81]()
				for _, v := range []*V{vArr(a, b, d), {K: KDict, M: map[string]*V{"x": a, "y": b, "": d}}, vArr(a, vArr(b, &V{K: KDict, M: map[string]*V{"z": d}}))} {
					for k := 0; k < 3; k++ {
						t := &texter{r: c.R, l: layout{ws: k}}
						t.val(v, 0)
						c.Distinct(t.sb.String())
						damage(c, t, true)
					}
				}
			}},
			{Name: "deep", N: counts(8, 100), Run: func(c *Ctx, i int) {
				n := []int{200, 500, 1000, 2000}[i%4]
				v := vInt(1)
				for k := 0; k < n; k++ {
					if c.R.P(1, 2) {
						v = vArr(v)
					} else {
						v = &V{K: KDict, M: map[string]*V{"a": v}}
					}
				}
				t := &texter{r: c.R, l: layoutPlain}
				t.val(v, 0)
				c.Distinct(t.sb.String())
				damage(c, t, false)
			}},
			{Name: "wide", N: counts(20, 300), Run: func(c *Ctx, i int) {
				n := pick(c.R, []int{100, 255, 256, 257, 1000, 4096, 5000})
				var v *V
				switch i % 3 {
				case 0:
					v = vArr()
					for k := 0; k < n; k++ {
						v.A = append(v.A, c.R.scalar(&genOpt{}))
					}
				case 1:
					v = vDict()
					for k := 0; k < n; k++ {
						v.M["m"+strconv.Itoa(k)] = c.R.scalar(&genOpt{})
					}
				default:
					v = vArr(vStr(strings.Repeat("long ", n)))
				}
				t := &texter{r: c.R, l: layout{ws: i % 2}}
				t.val(v, 0)
				c.Distinct(t.sb.String())
				damage(c, t, false)
			}},
		},
	})
}
