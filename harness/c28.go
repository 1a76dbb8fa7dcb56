package main

import (
	"errors"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	J "yunion.io/x/jsonutils"
)

// C28: the relaxed notation
//
// relaxer writes a document with few quotes: names and words without them,
// texts in single quotes, more words for the constants, more spellings of
// numbers and escapes, missing elements and commas in excess.

type relaxer struct {
	r     *Rand
	sb    strings.Builder
	marks []mark
	used  map[string]bool
	plain bool // no excess commas and missing values
}

var relaxWord = regexp.MustCompile(`^[\pL\pN_./@+-]+$`)
var relaxName = regexp.MustCompile(`^[\pL\pN_./@+<>#$*-]+$`)

// words that stand for something else, in any case
var relaxConst = map[string]bool{"null": true, "none": true, "true": true, "yes": true, "false": true, "no": true, "inf": true, "infinity": true, "nan": true}

// relaxNumber: the text spells a number, in the notation of Go
func relaxNumber(s string) bool {
	_, err := strconv.ParseFloat(s, 64)
	return err == nil || errors.Is(err, strconv.ErrRange)
}

func (t *relaxer) ws() {
	if t.r.P(1, 4) {
		t.sb.WriteString(pick(t.r, []string{" ", "\n", "\t", "  ", "\r\n"}))
	}
}

func (t *relaxer) use(s string) { t.used[s] = true }

func (t *relaxer) mixCase(s string) string {
	switch t.r.N(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	case 2:
		b := []byte(s)
		for i := range b {
			if t.r.P(1, 2) {
				b[i] -= 'a' - 'A'
			}
		}
		return string(b)
	}
	return s
}

func (t *relaxer) quoted(s string) {
	r := t.r
	q := byte('"')
	if r.P(1, 2) {
		q = '\''
		t.use("single quotes")
	}
	t.sb.WriteByte(q)
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		raw := s[i : i+n]
		i += n
		switch {
		case raw[0] == q || raw[0] == '\\':
			t.sb.WriteString("\\" + raw)
		case r.P(1, 12) && n == 1:
			const hex = "0123456789abcdefABCDEF"
			b := raw[0]
			lo, hi := int(b&15), int(b>>4)
			if lo > 9 && r.P(1, 2) {
				lo += 6
			}
			if hi > 9 && r.P(1, 2) {
				hi += 6
			}
			t.sb.WriteString("\\x" + hex[hi:hi+1] + hex[lo:lo+1])
			t.use("hex escapes")
		case r.P(1, 12) && c != utf8.RuneError && c < 0x10000:
			u := strconv.FormatInt(int64(c), 16)
			t.sb.WriteString("\\u" + strings.Repeat("0", 4-len(u)) + u)
		case r.P(1, 12) && n == 1 && strings.IndexByte("bfnrtux\\", raw[0]) < 0 && raw[0] >= ' ':
			t.sb.WriteString("\\" + raw)
			t.use("needless escapes")
		case raw[0] < ' ' && r.P(1, 2):
			short := map[byte]string{'\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}[raw[0]]
			if short == "" {
				short = raw
				t.use("raw control characters")
			}
			t.sb.WriteString(short)
		default:
			if raw[0] < ' ' {
				t.use("raw control characters")
			}
			t.sb.WriteString(raw)
		}
	}
	t.sb.WriteByte(q)
}

func (t *relaxer) mark(c byte) {
	t.marks = append(t.marks, mark{pos: t.sb.Len(), c: c})
	t.sb.WriteByte(c)
}

// val writes a value; in a container it may be missing
func (t *relaxer) val(v *V, inside bool) {
	r := t.r
	switch v.K {
	case KNull:
		w := pick(r, []string{"null", "none", ""})
		if w == "" && (!inside || t.plain) {
			w = "null"
		}
		if w != "null" {
			t.use("words for null")
		}
		if w != "" {
			w = t.mixCase(w)
		}
		t.sb.WriteString(w)
	case KBool:
		w := pick(r, map[bool][]string{true: {"true", "yes"}, false: {"false", "no"}}[v.B])
		t.use("words for booleans")
		t.sb.WriteString(t.mixCase(w))
	case KInt:
		s := strconv.FormatInt(v.I, 10)
		if r.P(1, 3) {
			d := strings.TrimPrefix(s, "-")
			z := strings.Repeat("0", r.N(3))
			if v.I < 0 {
				s = "-" + z + d
			} else {
				s = pick(r, []string{"", "+"}) + z + d
			}
			t.use("spellings of numbers")
		}
		t.sb.WriteString(s)
	case KFloat:
		s := floatText(r, v.F, true)
		if r.P(1, 2) {
			neg := strings.HasPrefix(s, "-")
			d := strings.TrimPrefix(s, "-")
			if strings.HasPrefix(d, "0.") && len(d) > 2 && d[2] >= '0' && d[2] <= '9' {
				d = d[1:]
			} else if strings.Contains(d, ".0e") {
				d = strings.Replace(d, ".0e", ".e", 1)
			} else if strings.HasSuffix(d, ".0") && len(d) > 2 {
				d = d[:len(d)-1]
			}
			if neg {
				s = "-" + d
			} else {
				s = pick(r, []string{"", "+"}) + d
			}
			t.use("spellings of numbers")
		}
		t.sb.WriteString(s)
	case KStr:
		if relaxWord.MatchString(v.S) && !relaxConst[strings.ToLower(v.S)] && !relaxNumber(v.S) && r.P(3, 4) {
			t.use("words without quotes")
			t.sb.WriteString(v.S)
			return
		}
		t.quoted(v.S)
	case KArr:
		t.mark('[')
		t.ws()
		for i, x := range v.A {
			n := t.sb.Len()
			t.val(x, true)
			if t.sb.Len() == n && i == len(v.A)-1 {
				t.mark(',') // a missing element at the end
				t.ws()
				break
			}
			t.ws()
			if i < len(v.A)-1 {
				t.mark(',')
				t.ws()
			} else if !t.plain && r.P(1, 5) {
				t.sb.WriteByte(',')
				t.ws()
				t.use("trailing commas")
			}
		}
		t.mark(']')
	case KDict:
		t.mark('{')
		t.ws()
		ks := shuffled(r, v.keys())
		for i, k := range ks {
			if relaxName.MatchString(k) && r.P(3, 4) {
				t.use("names without quotes")
				t.sb.WriteString(k)
			} else {
				t.quoted(k)
			}
			t.ws()
			t.mark(':')
			t.ws()
			t.val(v.M[k], true)
			t.ws()
			if i < len(ks)-1 {
				t.mark(',')
				t.ws()
			} else if !t.plain && r.P(1, 5) {
				t.sb.WriteByte(',')
				t.ws()
				t.use("trailing commas")
			}
		}
		t.mark('}')
	}
}

var relaxStrings = []string{"word", "a.b", "x-1", "user@host", "path/to/x", "Null1", "yess", "nope", "noon", "trueish", "no_", "e5", "x1", "Inf1", "on", "off", "名字", "_", "a+b", "nulls", "T", "Y", "n", "f", "Yes No", "none!", "'", "\"", "it's", "a,b", "a:b", "{a}", "[b]", "1x", "0x1F", "1,000", "-", "+", "--1", "1.2.3", "12:30", "<x>", "<", ">", "1_000", "'q'", `"q"`, "\\", "\\n", "\\x41", "\\u0041", " lead", "trail ", "tab\tx", "a\nb", "true", "null", "12", "-1.5", "yes", "", "10.0.0.1", "2020-01-02", "+8w", "-w", "-yes", "+true", "-.e5", "1e", "1e+", "0x", "0x1F", "0b11", "0o7", "1_0", "+-1", "5-3", "1.", ".5", "..", "...", "//", "a//b", "/", "@", "e", "E5", "1e5x", "١٢", "Ⅷ", "12e", "0x1p", "0xfp", "infinite", "nano", "+infi", "1.5.", "-0x", "None1", "tRUE", "yES"}

func relaxDoc(r *Rand) *V {
	v := r.doc(genOpt{maxSize: 18, depth: 4, noNeg0: true})
	var w func(v *V)
	w = func(v *V) {
		for i := range v.A {
			if v.A[i].K == KStr && r.P(2, 3) {
				v.A[i] = vStr(pick(r, relaxStrings))
			}
			w(v.A[i])
		}
		for _, k := range v.keys() {
			x := v.M[k]
			if x.K == KStr && r.P(2, 3) {
				x = vStr(pick(r, relaxStrings))
				v.M[k] = x
			}
			w(x)
			if r.P(1, 3) {
				if n := pick(r, relaxStrings); n != "" && v.M[n] == nil {
					v.M[n] = x
					delete(v.M, k)
				}
			}
		}
	}
	if v.K != KArr && v.K != KDict && r.P(4, 5) {
		v = vArr(v, vStr(pick(r, relaxStrings)))
	}
	w(v)
	return v
}

func c28Case(c *Ctx, i int) { c28Check(c, relaxDoc(c.R)) }

// c28Large: large documents, long words and names without quotes
func c28Large(c *Ctx, i int) {
	r := c.R
	o := genOpt{noNeg0: true}
	var v *V
	switch n := pick(r, []int{40, 310, 3100, 30100}); i % 5 {
	case 0:
		w := strings.Repeat(pick(r, []string{"x", "ab", "é", "x1-", "a.b/", "0x"}), n) + pick(r, []string{"", "z", "1", "名"})
		v = vArr(vStr(w), r.scalar(&o))
	case 1:
		w := strings.Repeat(pick(r, []string{"x", "ab", "é", "x1-", "0x"}), n)
		v = &V{K: KDict, M: map[string]*V{w: vStr("v"), w + "2": vStr(w + "3"), w + "4": vNull()}}
	case 2:
		v = vArr()
		for ; n > 0; n-- {
			v.A = append(v.A, pick(r, []*V{vNull(), vNull(), vStr("w"), vBool(true), vInt(7)}))
		}
	default:
		v = bigCase(r, i/5*2+i%5-3, o)
	}
	c28Check(c, v)
	c.Ev("large_documents", 1)
}

func c28Check(c *Ctx, v *V) {
	r := c.R
	t := &relaxer{r: r, used: map[string]bool{}, plain: r.P(1, 3)}
	t.val(v, false)
	text := t.sb.String()
	c.Distinct(text)
	c.Sample("%s", q(text))
	for k := range t.used {
		c.Ev(strings.ReplaceAll(k, " ", "_"), 1)
	}
	o, err := J.ParseString(text)
	c.Check(err == nil && o != nil, "%s, which stands for %s, does not parse: %v", q(text), q(v.text()), shortErr(err))
	if d := diff(v, observe(o), decode); d != "" {
		c.Fail("%s is read as %s instead of %s: %s", q(text), q(o.String()), q(v.text()), d)
	}
	c.Ev("documents", 1)
	if v.K != KArr && v.K != KDict {
		return
	}
	// in a stream, and cut off
	pre := pick(r, []string{"", " \n", "junk ", "12 "})
	if strings.TrimSpace(pre) == "" {
		p, n, err := J.ParseStream([]byte(pre+text+pick(r, []string{"", " ", "{", "]", "x"})), 0)
		c.Check(err == nil && n == len(pre)+len(text), "parsing %s with %q before it ends at %d, %v", q(text), pre, n, shortErr(err))
		c.Check(p.Equals(o), "%s is read differently in a stream", q(text))
	}
	for k := 0; k < 12; k++ {
		cut := r.N(len(text))
		if len(t.marks) > 0 && r.P(1, 2) {
			cut = pick(r, t.marks).pos
		}
		p, err := J.ParseString(text[:cut])
		c.Check(err != nil, "%s, a part of %s, is read as %s", q(text[:cut]), q(text), objText(p))
		c.Ev("cut_off", 1)
	}
	if t.plain && len(t.marks) > 0 {
		m := pick(r, t.marks)
		b := []byte(text)
		switch m.c {
		case ']':
			b[m.pos] = '}'
		case '}':
			b[m.pos] = ']'
		default:
			return
		}
		p, err := J.ParseString(string(b))
		c.Check(err != nil, "%s, with a bracket of the wrong kind, is read as %s", q(string(b)), objText(p))
		c.Ev("wrong_bracket", 1)
	}
}

func init() {
	register(&Prop{
		ID:     "C28",
		Rule:   "random documents written with single quotes, bare names and words, further words for the constants, further spellings of numbers and escapes, missing elements and excess commas; parsed alone, in a stream, cut off and with a wrong bracket; distinct texts count",
		Assume: []string{"bare words are made of letters, digits and _ . / @ + - and spell no number"},
		W: []Workload{
			{Name: "texts", N: counts(40000, 3000000), Run: c28Case},
			{Name: "large", N: counts(200, 4000), Run: c28Large},
		},
		MinEv: map[string]int64{"documents": 30000, "cut_off": 200000, "words_without_quotes": 5000, "trailing_commas": 3000, "words_for_null": 3000},
	})
}
