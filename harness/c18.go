package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	J "yunion.io/x/jsonutils"
)

// words and shapes with a meaning in YAML
var yamlish = []string{"<<", "=", "y", "n", "Y", "N", "yes", "No", "ON", "off", "~", "null", "Null", "true", "True", "1", "-1", "+1", "0o7", "010", "0x1f", "0b1", "1_000", "1e3", "1E+3", "1.5", ".5", "5.", ".inf", "-.INF", ".NaN", "12:30", "1:2:3", "-190:20:30.15", "2020-01-02", "2020-1-2", "2020-01-02T03:04:05Z", "2020-01-02 03:04:05", "2020-01-02 03:04:05.5 -5", "- a", "-", "--- a", "---", "...", "?", "? a", "a: b", "a:", ": a", ":", "a #b", "#", "!!str a", "!", "!!binary aGk=", "&a b", "*a", "%YAML 1.1", "@a", "`a", "|", "|-", ">", ">+2", "{", "}", "{a: b}", "[", "]", "[a, b]", ",", "a, b", "'", "''", "'a'", "\"", "\"a\"", "\\", "\\n", "a\\", " a", "a ", "  ", "\t", "\ta", "a\t", "\n", "\n\n", "a\n", "a\n\n", "\na", " \na", "a\n b", "a\n  b\n c", "a\n\tb", "a\r\nb", "\r", "a\n#b", "a\n- b", "a\n---\nb", "a\n...\nb", "\u0085", "a\u0085b", "\u2028", "a\u2029b", "\ufeff", "a\ufeffb", "\u00a0", "\x00", "\x07", "\x1b", "\x7f", "\u0080", "\u009f", "\ufffe", "\uffff", "\ufffd", "\U0001f600", "\U0010ffff", "é", "\u200b", "\u202e", "\\u003c", "\\u003e", "\\u0026", "\\u2028", "\\u0041", "\\x41", "\\\\u003c", "\\/", "<", ">", "&", "&amp;", "<b>", "\\t", "\\\"", "\\\n"}

func yamlStr(r *Rand) string {
	switch r.N(4) {
	case 0:
		return pick(r, yamlish)
	case 1:
		s := ""
		for n := r.N(6); n >= 0; n-- {
			s += pick(r, yamlish)
			if r.P(1, 3) {
				s += pick(r, []string{" ", "\n", "\n  ", "a", ": ", "#", ", "})
			}
		}
		return s
	case 2: // long lines are folded
		s := ""
		for n := r.size(60); n > 0; n-- {
			s += pick(r, []string{"word", "a", "longer-word", pick(r, yamlish), "x"})
			s += pick(r, []string{" ", " ", " ", "  ", "\n", "\n ", "\t"})
		}
		return s
	}
	return r.str(sUTF8)
}

// yamlRewrite replaces some strings and names by ones that matter to YAML
func yamlRewrite(r *Rand, v *V) *V {
	switch v.K {
	case KStr:
		if r.P(1, 2) {
			return vStr(yamlStr(r))
		}
	case KArr:
		ret := vArr()
		for _, x := range v.A {
			ret.A = append(ret.A, yamlRewrite(r, x))
		}
		return ret
	case KDict:
		ret := vDict()
		for _, k := range v.keys() {
			n := k
			if r.P(1, 3) {
				n = yamlStr(r)
			}
			if n == "<<" || n == "___jnid_" || len(n) > 150 {
				n = k
			}
			ret.M[n] = yamlRewrite(r, v.M[k])
		}
		return ret
	}
	return v
}

// yamlReadable reports whether every character of a text may stand verbatim in
// a YAML text
func yamlReadable(s string) bool {
	for _, c := range s {
		switch {
		case c >= 0x20 && c < 0x7f, c == '\n':
		case c >= 0xa0 && c < 0xd800 && c != 0x2028 && c != 0x2029:
		case c >= 0xe000 && c < 0xfffd && c != 0xfeff, c >= 0x10000:
		default:
			return false
		}
	}
	return utf8.ValidString(s)
}

// words that stand for themselves in YAML, without quotes, also within
// brackets
var plainWords = []string{"a", "b c", "hello world", "a-b", "x/y", "v1.2.3", "été", "don't", "say \"hi\"", "10 apples", "a=b", "(x)", "nothing", "truer", "yesterday", "1.2.3", "x.y.z", "A_B", "a  b", "<b>", "a\\nb", "50%", "$x", "日本"}

// yamlWriter writes values as people do, in block or flow style, with words
// and quotes of all kinds, comments and any indentation
type yamlWriter struct {
	r    *Rand
	kind map[string]int
}

func (w *yamlWriter) quoted(s string) string {
	sb := &strings.Builder{}
	sb.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(c)
		case c == '\n':
			sb.WriteString(`\n`)
		case c == '\t' && w.r.P(1, 2):
			sb.WriteString(`\t`)
		case yamlReadable(string(c)) && !(c > 0x20 && w.r.P(1, 30)):
			sb.WriteRune(c)
		case c < 0x100 && w.r.P(1, 2):
			fmt.Fprintf(sb, `\x%02x`, c)
		case c < 0x10000:
			fmt.Fprintf(sb, `\u%04X`, c)
		default:
			fmt.Fprintf(sb, `\U%08x`, c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (w *yamlWriter) str(s string, key bool) string {
	for _, p := range plainWords {
		if p == s && w.r.P(2, 3) {
			w.kind["plain"]++
			return s
		}
	}
	if n, err := strconv.Atoi(s); key && err == nil && n >= 0 && n < 1000000000 && strconv.Itoa(n) == s && w.r.P(1, 2) {
		w.kind["number_as_name"]++
		return s
	}
	if yamlReadable(s) && !strings.Contains(s, "\n") && w.r.P(1, 2) {
		w.kind["single_quoted"]++
		return "'" + strings.Replace(s, "'", "''", -1) + "'"
	}
	w.kind["double_quoted"]++
	return w.quoted(s)
}

func (w *yamlWriter) flow(v *V, in bool) string {
	r := w.r
	switch v.K {
	case KNull:
		if !in && r.P(1, 3) {
			return ""
		}
		return pick(r, []string{"null", "~", "Null", "NULL"})
	case KBool:
		if v.B {
			return pick(r, []string{"true", "True", "TRUE", "yes", "Yes", "on", "ON"})
		}
		return pick(r, []string{"false", "False", "no", "NO", "off", "Off"})
	case KInt:
		if v.I >= 0 && r.P(1, 6) {
			return fmt.Sprintf("0x%x", v.I)
		}
		return strconv.FormatInt(v.I, 10)
	case KFloat:
		s := strconv.FormatFloat(v.F, 'f', -1, 64)
		if len(s) > 30 {
			s = strconv.FormatFloat(v.F, 'e', -1, 64)
		}
		if !strings.Contains(s, ".") {
			if e := strings.IndexByte(s, 'e'); e >= 0 {
				s = s[:e] + ".0" + s[e:]
			} else {
				s += ".0"
			}
		}
		return s
	case KStr:
		return w.str(v.S, false)
	case KArr:
		var l []string
		for _, x := range v.A {
			l = append(l, w.flow(x, true))
		}
		w.kind["flow_list"]++
		return "[" + pick(r, []string{"", " "}) + strings.Join(l, pick(r, []string{", ", ",  ", " , "})) + pick(r, []string{"", " "}) + "]"
	}
	var l []string
	for _, k := range v.keys() {
		l = append(l, w.str(k, true)+": "+w.flow(v.M[k], true))
	}
	w.kind["flow_object"]++
	return "{" + pick(r, []string{"", " "}) + strings.Join(l, ", ") + pick(r, []string{"", " "}) + "}"
}

func (w *yamlWriter) end(sb *strings.Builder) {
	if w.r.P(1, 10) {
		w.kind["comment"]++
		sb.WriteString(pick(w.r, []string{" # comment", " #", "   # 'x", " # {"}))
	}
	sb.WriteByte('\n')
	for w.r.P(1, 12) {
		w.kind["comment_line"]++
		sb.WriteString(pick(w.r, []string{"\n", "# - a\n", "      # a: b\n", "   \n"}))
	}
}

// value writes what follows a name, or the dash of an element
func (w *yamlWriter) value(sb *strings.Builder, v *V, ind int, elem bool) {
	r := w.r
	switch {
	case (v.K == KArr && len(v.A) > 0 || v.K == KDict && len(v.M) > 0) && r.P(2, 3):
		if elem {
			gap := 1 + r.N(3)
			in := w.block(v, ind+1+gap)
			sb.WriteString(strings.Repeat(" ", gap) + in[ind+1+gap:])
			return
		}
		w.end(sb)
		if v.K == KArr {
			ind += r.N(4)
		} else {
			ind += 1 + r.N(4)
		}
		sb.WriteString(w.block(v, ind))
	case v.K == KStr && !elem && len(v.S) > 0 && yamlReadable(v.S) && v.S[0] != ' ' && v.S[0] != '\n' && strings.Count(v.S, "\n") < 20 && !strings.HasSuffix(v.S, "\n\n") && r.P(1, 3):
		w.kind["literal_block"]++
		text := strings.TrimSuffix(v.S, "\n")
		if text == v.S {
			sb.WriteString(" |-\n")
		} else {
			sb.WriteString(" |\n")
		}
		pad := strings.Repeat(" ", ind+1+r.N(4))
		for _, line := range strings.Split(text, "\n") {
			sb.WriteString(pad + line + "\n")
		}
	default:
		if s := w.flow(v, false); s != "" {
			sb.WriteString(pick(r, []string{" ", " ", "   "}) + s)
		}
		w.end(sb)
	}
}

func (w *yamlWriter) block(v *V, ind int) string {
	sb := &strings.Builder{}
	pad := strings.Repeat(" ", ind)
	if v.K == KArr {
		w.kind["block_list"]++
		for _, x := range v.A {
			sb.WriteString(pad + "-")
			w.value(sb, x, ind, true)
		}
		return sb.String()
	}
	w.kind["block_object"]++
	for _, k := range v.keys() {
		sb.WriteString(pad + w.str(k, true) + ":")
		w.value(sb, v.M[k], ind, false)
	}
	return sb.String()
}

func (w *yamlWriter) document(v *V) string {
	r := w.r
	sb := &strings.Builder{}
	for r.P(1, 4) {
		sb.WriteString(pick(r, []string{"# heading\n", "\n", "  # a: b\n"}))
	}
	if r.P(1, 4) {
		w.kind["document_marker"]++
		sb.WriteString("---\n")
	}
	empty := len(v.A) == 0 && len(v.M) == 0
	if empty || r.P(1, 5) {
		s := w.flow(v, true)
		if !empty {
			s = strings.Repeat(" ", pick(r, []int{0, 0, 2})) + s
		}
		sb.WriteString(s)
		if r.P(1, 2) {
			w.end(sb)
		}
	} else {
		ind := pick(r, []int{0, 0, 0, 1, 2, 4})
		if ind > 0 {
			w.kind["indented_as_a_whole"]++
		}
		sb.WriteString(w.block(v, ind))
	}
	s := sb.String()
	if r.P(1, 8) {
		w.kind["crlf"]++
		s = strings.Replace(s, "\n", "\r\n", -1)
	}
	return s
}

func plainWordsIn(r *Rand, v *V) *V {
	switch v.K {
	case KStr:
		if r.P(1, 2) {
			return vStr(pick(r, plainWords))
		}
		if r.P(1, 4) {
			return vStr(pick(r, []string{"one\ntwo", "one\n two\n", "x\n\ny", "# no comment\nnot: this\n", "- a\n- b"}))
		}
	case KArr:
		ret := vArr()
		for _, x := range v.A {
			ret.A = append(ret.A, plainWordsIn(r, x))
		}
		return ret
	case KDict:
		ret := vDict()
		for _, k := range v.keys() {
			n := k
			if r.P(1, 2) {
				n = pick(r, plainWords)
			} else if r.P(1, 8) {
				n = strconv.Itoa(r.N(2000))
			}
			ret.M[n] = plainWordsIn(r, v.M[k])
		}
		return ret
	}
	return v
}

// c18Written: YAML texts written by hand
func c18Written(c *Ctx, i int) {
	r := c.R
	v := plainWordsIn(r, r.doc(genOpt{str: sUTF8, maxSize: 25, depth: 4, noNeg0: true, keyOK: func(k string) bool { return k != "<<" && len(k) <= 60 }}))
	w := &yamlWriter{r: r, kind: map[string]int{}}
	var text string
	if v.K == KDict && r.P(1, 6) {
		// a value that is written once and used twice
		x := plainWordsIn(r, r.doc(genOpt{str: sUTF8, maxSize: 6, depth: 2, noNeg0: true, keyOK: func(k string) bool { return k != "<<" && len(k) <= 60 }}))
		v.M["base"], v.M["again"] = x, x
		delete(v.M, "base")
		delete(v.M, "again")
		text = "base: &x " + w.flow(x, true) + "\nagain: *x\n"
		if len(v.M) > 0 {
			text += w.block(v, 0)
		}
		v.M["base"], v.M["again"] = x, x
		w.kind["alias"]++
	} else {
		text = w.document(v)
	}
	c.Distinct(text)
	c.Sample("%s", q(text))
	c.Note("%s", q(text))
	back, err := J.ParseYAML(text)
	c.Check(err == nil && back != nil, "the YAML text %s cannot be parsed: %v", q(text), shortErr(err))
	if d := diff(v, observe(back), numeric); d != "" {
		c.Fail("the YAML text %s is read wrong (expected vs got): %s", q(text), d)
	}
	c.Ev("yaml_by_hand", 1)
	for k, n := range w.kind {
		c.Ev(k, n)
	}
}

func init() {
	base := genOpt{str: sUTF8, maxSize: 40, keyOK: func(k string) bool { return k != "<<" && len(k) <= 150 }}
	probe := func(c *Ctx, v *V, doc J.JSONObject) {
		before := doc.String()
		y := doc.YAMLString()
		c.Ev("yaml_written", 1)
		c.Ev("nodes", v.size())
		c.Note("%s", q(y))
		c.Check(y != "", "the YAML form of %s is empty", v.brief())
		back, err := J.ParseYAML(y)
		c.Check(err == nil && back != nil, "the YAML form %s of %s cannot be parsed: %v", q(y), v.brief(), shortErr(err))
		if d := diff(v, observe(back), decode); d != "" {
			c.Fail("the YAML form %s is read back wrong (expected vs got): %s", q(y), d)
		}
		c.Check(doc.String() == before, "writing YAML changed the document %s", v.brief())
	}
	register(&Prop{
		ID:   "C18",
		Rule: "documents full of strings and names with a meaning in YAML, written as YAML and read back, YAML texts written from known values by an own writer, and JSON texts read as YAML; distinct documents count",
		Assume: []string{
			"the member name << is the known finding K3, and names of more than 1,024 characters are the known finding K4",
			"a JSON text that is parsed as YAML has no characters that YAML excludes or folds, no escape that YAML lacks (surrogate pairs) and no tab or carriage return between its tokens",
		},
		MinEv: map[string]int64{"yaml_written": 15000, "json_as_yaml": 10000, "yaml_by_hand": 15000, "large_documents": 10},
		Probe: map[string]func() (bool, string){"K3": func() (bool, string) {
			doc := J.NewDict()
			doc.Set("<<", J.NewInt(1))
			doc.Set("a", J.NewInt(2))
			back, err := J.ParseYAML(doc.YAMLString())
			if err != nil {
				return true, err.Error()
			}
			return !back.Equals(doc), fmt.Sprintf("%s comes back as %s", doc, back)
		}, "K4": func() (bool, string) {
			doc := J.NewDict()
			doc.Set("a", J.NewInt(2))
			doc.Set(strings.Repeat("n", 1100), J.NewInt(1))
			y := doc.YAMLString()
			return y == "", fmt.Sprintf("the YAML form of a two-member object has %d bytes", len(y))
		}},
		W: []Workload{
			{Name: "roundtrip", N: counts(16000, 300000), Run: func(c *Ctx, i int) {
				r := c.R
				v := yamlRewrite(r, r.doc(base))
				c.Distinct(v.text())
				c.Sample("%s", v.brief())
				c.Note("%s", v.text())
				probe(c, v, buildVia(r, v))
			}},
			{Name: "scalars", N: fixed(len(yamlish) * 6), Run: func(c *Ctx, i int) {
				s := yamlish[i/6]
				v := vStr(s)
				switch i % 6 {
				case 1:
					v = vArr(v)
				case 2:
					v = vArr(vArr(v), v)
				case 3, 4:
					if s == "<<" {
						return
					}
					v = &V{K: KDict, M: map[string]*V{s: vInt(1)}}
					if i%6 == 4 {
						v.M["a"] = v.clone()
						v = vArr(v)
					}
				case 5:
					v = &V{K: KDict, M: map[string]*V{"a": v}}
				}
				c.Distinct(v.text())
				probe(c, v, build(v))
			}},
			{Name: "characters", N: fixed(0x110000 / 0x200), Run: func(c *Ctx, i int) {
				// every character, as a value and in a name
				if i >= 0x80 && i%16 != 0 && i*0x200 < 0x110000-0x200 && !c.tier {
					return
				}
				v := vDict()
				list := vArr()
				for ch := rune(i * 0x200); ch < rune(i*0x200+0x200); ch++ {
					if ch >= 0xd800 && ch <= 0xdfff {
						continue
					}
					list.A = append(list.A, vStr(string(ch)), vStr("a"+string(ch)+"b"))
					v.M["k"+string(ch)] = vStr(string(ch) + "x")
				}
				v.M["list"] = list
				c.Distinct(v.text())
				c.Ev("characters", len(list.A))
				probe(c, v, build(v))
			}},
			{Name: "numbers", N: counts(3000, 60000), Run: func(c *Ctx, i int) {
				r := c.R
				v := vArr()
				for n := r.size(30); n >= 0; n-- {
					if r.P(1, 2) {
						v.A = append(v.A, vInt(r.int64v()))
					} else {
						v.A = append(v.A, vFloat(r.float()))
					}
				}
				c.Distinct(v.text())
				probe(c, v, build(v))
			}},
			{Name: "large", N: counts(24, 200), Run: func(c *Ctx, i int) {
				// texts of a hundred kilobytes and more
				r := c.R
				v := vArr()
				if i%3 == 1 {
					v = vDict()
				}
				add := func(x *V) {
					if v.K == KDict {
						v.M["k"+strconv.Itoa(len(v.M))+pick(r, simpleWords)] = x
					} else {
						v.A = append(v.A, x)
					}
				}
				if i%3 == 2 {
					add(vStr(strings.Repeat(yamlStr(r)+" word ", 20000)))
				} else {
					for n := 6000 + r.N(6000); n >= 0; n-- {
						switch r.N(6) {
						case 0:
							add(vInt(r.int64v()))
						case 1:
							if i%6 == 0 {
								add(vStr(pick(r, simpleWords)))
							} else {
								add(vStr(yamlStr(r)))
							}
						case 2:
							add(vArr(vStr(pick(r, simpleWords)), vNull()))
						case 3:
							add(vBool(r.P(1, 2)))
						default:
							add(vStr(pick(r, simpleWords) + strconv.Itoa(r.N(1000))))
						}
					}
				}
				c.Distinct(strconv.Itoa(i))
				c.Ev("large_documents", 1)
				doc := build(v)
				probe(c, v, doc)
				back, err := J.ParseYAML(doc.PrettyString())
				if i%3 == 0 && yamlReadable(doc.String()) {
					c.Ev("large_json_texts", 1)
					c.Check(err == nil && back != nil, "a JSON text of %d bytes cannot be parsed as YAML: %v", len(doc.String()), shortErr(err))
					if d := diff(v, observe(back), decode); d != "" {
						c.Fail("a JSON text of %d bytes is read as YAML wrong (expected vs got): %s", len(doc.String()), d)
					}
				}
			}},
			{Name: "written", N: counts(30000, 500000), Run: c18Written},
			{Name: "jsontext", N: counts(40000, 600000), Run: func(c *Ctx, i int) {
				r := c.R
				o := base
				v := r.doc(o)
				if r.P(1, 2) {
					v = yamlRewrite(r, v)
				}
				doc := build(v)
				var text string
				switch r.N(3) {
				case 0:
					text = doc.String()
				case 1:
					text = doc.PrettyString()
				default:
					text = writeText(r, v, layoutPlain)
				}
				if !yamlReadable(text) {
					return
				}
				c.Ev("json_as_yaml", 1)
				c.Distinct(text)
				c.Sample("%s", q(text))
				a, err := J.ParseString(text)
				c.Check(err == nil, "%s cannot be parsed as JSON: %v", q(text), shortErr(err))
				b, err := J.ParseYAML(text)
				c.Check(err == nil, "the JSON text %s cannot be parsed as YAML: %v", q(text), shortErr(err))
				if d := diff(observe(a), observe(b), decode); d != "" {
					c.Fail("the JSON text %s is read differently as YAML (JSON vs YAML): %s", q(text), d)
				}
			}},
		},
	})
}

var simpleWords = []string{"alpha", "beta", "x1", "some words", "e", "2020", "no", "-", ""}
