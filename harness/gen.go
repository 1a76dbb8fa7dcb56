package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Literals of the tree under test steer the generators towards the special
// values of the code; they are no part of any oracle.
type literals struct {
	ints   []int64
	sizes  []int
	strs   []string
	floats []float64
	bytes  []byte
}

var lits literals

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func init() {
	ints := map[int64]bool{}
	strs := map[string]bool{}
	floats := map[float64]bool{}
	bs := map[byte]bool{}
	files, _ := filepath.Glob(filepath.Join(repoDir(), "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		af, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.ImportSpec:
				return false
			}
			b, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch b.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(b.Value, 0, 64); err == nil {
					ints[v] = true
				}
			case token.FLOAT:
				if v, err := strconv.ParseFloat(b.Value, 64); err == nil {
					floats[v] = true
				}
			case token.STRING:
				if s, err := strconv.Unquote(b.Value); err == nil && len(s) > 0 && len(s) <= 40 {
					strs[s] = true
				}
			case token.CHAR:
				if r, _, _, err := strconv.UnquoteChar(strings.Trim(b.Value, "'"), '\''); err == nil {
					if r < 256 {
						bs[byte(r)] = true
					}
					strs[string(r)] = true
				}
			}
			return true
		})
	}
	for v := range ints {
		for d := int64(-1); d <= 1; d++ {
			lits.ints = append(lits.ints, v+d, -v-d)
			if v+d >= 0 && v+d <= 1100 {
				lits.sizes = append(lits.sizes, int(v+d))
			}
		}
	}
	sort.Slice(lits.ints, func(i, j int) bool { return lits.ints[i] < lits.ints[j] })
	sort.Ints(lits.sizes)
	for s := range strs {
		if strings.Contains(s, "jnid") || s == "<<" {
			continue
		}
		lits.strs = append(lits.strs, s)
	}
	sort.Strings(lits.strs)
	for f := range floats {
		lits.floats = append(lits.floats, f)
	}
	sort.Float64s(lits.floats)
	for b := range bs {
		lits.bytes = append(lits.bytes, b)
	}
	sort.Slice(lits.bytes, func(i, j int) bool { return lits.bytes[i] < lits.bytes[j] })
	if len(lits.ints) == 0 {
		lits.ints = []int64{0, 1}
	}
	if len(lits.sizes) == 0 {
		lits.sizes = []int{1}
	}
	if len(lits.strs) == 0 {
		lits.strs = []string{"x"}
	}
	if len(lits.floats) == 0 {
		lits.floats = []float64{1.5}
	}
	if len(lits.bytes) == 0 {
		lits.bytes = []byte{'x'}
	}
}

var boundarySizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 20, 21, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257}

// size gives a collection size, mostly small, sometimes at a boundary
func (r *Rand) size(max int) int {
	var n int
	switch r.N(10) {
	case 0, 1:
		n = pick(r, boundarySizes)
	case 2:
		n = pick(r, lits.sizes)
	case 3:
		n = r.N(14)
	default:
		n = r.N(5)
	}
	if n > max {
		n = r.N(max + 1)
	}
	return n
}

var boundaryInts = []int64{0, 1, -1, 2, 7, 9, 10, 11, 63, 64, 99, 100, 127, 128, 129, -128, -129, 255, 256, 257, 999, 1000, 1001, 9999, 10000, 32767, 32768, -32768, -32769, 65535, 65536, 99999, 100000, 999999, 1000000, 1000001, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 9007199254740991, 9007199254740992, 9007199254740993, -9007199254740993, 999999999999999999, 1000000000000000000, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1}

func (r *Rand) int64v() int64 {
	switch r.N(8) {
	case 0, 1:
		return pick(r, boundaryInts)
	case 2:
		return pick(r, lits.ints)
	case 3:
		return int64(r.Uint64())
	case 4:
		return int64(r.Uint64()) >> uint(r.N(64))
	default:
		return int64(r.N(2001) - 1000)
	}
}

var boundaryFloats = []float64{0, 0.5, -0.5, 1, -1, 0.1, 0.2, 0.3, 1.0 / 3, 2.0 / 3, 3.141592653589793, 1e-6, 1e-7, 1.5e-7, 123456.789, 1e5, 1e6, 1e20, 1e21, 1e22, 1.5e300, 1e-300, 5e-324, 2.2250738585072014e-308, math.MaxFloat64, -math.MaxFloat64, math.MaxFloat32, 16777216, 16777217, 9007199254740992, 9007199254740994, 9.223372036854775e18, 9223372036854775808, 1.8446744073709552e19, 4.35, 0.000001, 0.0000001, 100, 1e15, 123456789012345680, 1.7976931348623157e308, 2.5, 3.5, -2.5, 0.9999999, 99.99999999}

func (r *Rand) float() float64 {
	switch r.N(8) {
	case 0, 1:
		return pick(r, boundaryFloats)
	case 2:
		return pick(r, lits.floats)
	case 3:
		for {
			f := math.Float64frombits(r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	case 4:
		return float64(r.int64v())
	case 5:
		return float64(r.N(20001)-10000) / 100
	case 6:
		return float64(float32(r.NormFloat64() * 1000))
	default:
		return r.NormFloat64() * math.Pow(10, float64(r.N(40)-20))
	}
}

func (r *Rand) float32v() float32 {
	switch r.N(5) {
	case 0:
		return pick(r, []float32{0, 0.1, 0.5, 1, -1, 3.4028235e38, 1e-45, 16777216, 1.1754944e-38, 0.3, 1.1, 100.25, 1e10, 1e-7})
	case 1:
		for {
			f := math.Float32frombits(uint32(r.Uint64()))
			if f == f && !math.IsInf(float64(f), 0) {
				return f
			}
		}
	default:
		return float32(r.NormFloat64() * math.Pow(10, float64(r.N(12)-6)))
	}
}

var ambiguous = []string{"", " ", "  ", "null", "Null", "NULL", "~", "none", "None", "true", "True", "TRUE", "false", "False", "yes", "Yes", "no", "NO", "on", "On", "off", "y", "Y", "n", "N", "0", "1", "-1", "+1", "00", "01", "007", "0x1F", "0o17", "0b11", "1e3", "1E400", "1.0", "1.", ".5", "-.5", "-0", "1_000", "1,000", "1.000,5", "12:30:45", "190:20:30", "2020-01-01", "2020-01-01T00:00:00Z", "2001-12-14t21:59:43.10-05:00", ".inf", "-.inf", ".nan", "NaN", "nan", "inf", "Infinity", "-", "--", "---", "...", "- a", "-a", "? x", "?", ": ", ":", "a: b", "a:b", "a :b", "#", "# x", "a #b", "a#b", "!", "!!str x", "!x", "&a", "*a", "%TAG", "@x", "`x`", "|", ">", "|-", ">+", "[", "]", "{", "}", "[1]", "{}", "[]", "{\"a\":1}", ",", ", ", "\"", "'", "\"x\"", "'x'", "\\", "\\n", "\\u0041", "\\x41", "\\\"", "/", "\\/", "<1>", "<>", "<", ">", "<x>", "=", "a=b", "a&b", "&", "+", "a+b", "%", "%41", "%zz", "a%20b", ";", "a;b", "a.b", ".", "..", "a.", ".a", "0.0", "x.0", "x.1", "a\nb", "\n", "\n\n", "a\n", "\na", "\r", "\r\n", "\t", "\ta", "a\t", " a", "a ", "  a\n  b\n", "a\n b", "\x00", "\x01", "\x1f", "\x7f", "\u0080", "\u0085", "\u009f", "\u00a0", "\u2028", "\u2029", "\u200b", "\ufeff", "\ufffd", "\ufffe", "\uffff", "\U0001F600", "\U0010FFFF", "\U00010000", "é", "ß", "İ", "ı", "K", "ſ", "你好", "日本語", "a\u0301", "🏳️‍🌈"}

var letters = []string{"a", "b", "c", "d", "e", "k", "s", "x", "y", "z", "A", "B", "K", "S", "Z", "0", "1", "2", "9", "_", "-", "é", "ß", "ſ", "你", "\u212a", "\U0001F600"}

type strOpt int

const (
	sAny  strOpt = iota // any bytes
	sUTF8               // valid UTF-8
)

func (r *Rand) str(o strOpt) string {
	var s string
	switch r.N(12) {
	case 0:
		s = pick(r, ambiguous)
	case 1:
		s = pick(r, lits.strs)
	case 2: // every single character
		if r.P(1, 2) || o == sUTF8 {
			s = string(rune(r.N(0x180)))
		} else {
			s = string([]byte{byte(r.N(256))})
		}
	case 3:
		n := r.N(8)
		for i := 0; i < n; i++ {
			s += pick(r, ambiguous)
		}
	case 4: // random runes over all planes
		n := r.N(8)
		for i := 0; i < n; i++ {
			c := rune(r.N(1 << uint(7+r.N(14))))
			if c > 0x10ffff || c >= 0xd800 && c <= 0xdfff {
				c = 0x10ffff
			}
			s += string(c)
		}
	case 5: // random bytes
		n := r.N(10)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.N(256))
		}
		s = string(b)
	case 6: // long
		n := r.size(300)
		unit := pick(r, letters)
		if r.P(1, 3) {
			unit = pick(r, ambiguous)
		}
		s = strings.Repeat(unit, n)
		if len(s) > 3000 {
			s = s[:3000]
		}
		if r.P(1, 3) {
			s += pick(r, ambiguous)
		}
	case 7:
		n := r.N(6)
		for i := 0; i < n; i++ {
			s += string([]byte{pick(r, lits.bytes)})
			if r.P(1, 2) {
				s += pick(r, letters)
			}
		}
	default:
		n := r.N(7)
		for i := 0; i < n; i++ {
			s += pick(r, letters)
		}
	}
	if o == sUTF8 && !utf8.ValidString(s) {
		s = strings.ToValidUTF8(s, "?")
	}
	return s
}

func (r *Rand) key(o strOpt) string {
	for {
		var s string
		switch r.N(4) {
		case 0:
			s = r.str(o)
			if len(s) > 400 {
				s = s[:400]
			}
			if o == sUTF8 {
				s = strings.ToValidUTF8(s, "?")
			}
		case 1:
			s = pick(r, letters) + pick(r, letters)
		case 2:
			s = "key" + strconv.Itoa(r.N(30))
		default:
			s = pick(r, letters)
		}
		if s != "___jnid_" {
			return s
		}
	}
}

type genOpt struct {
	str     strOpt
	nan     bool // allow NaN and infinities
	f32     bool // allow 32 bit floats
	noNeg0  bool
	noNull  bool
	maxSize int // bound on the total number of nodes
	depth   int
	keyOK   func(string) bool
	strOK   func(string) bool
	noEmpty bool // no empty containers
}

func (r *Rand) scalar(o *genOpt) *V {
	switch r.N(10) {
	case 0:
		if !o.noNull {
			return vNull()
		}
		return vBool(true)
	case 1:
		return vBool(r.P(1, 2))
	case 2, 3:
		return vInt(r.int64v())
	case 4, 5:
		if o.nan && r.P(1, 8) {
			return vFloat(pick(r, []float64{math.NaN(), math.Inf(1), math.Inf(-1)}))
		}
		if o.f32 && r.P(1, 4) {
			return &V{K: KFloat, F: float64(r.float32v()), F32: true}
		}
		f := r.float()
		if o.noNeg0 && f == 0 {
			f = 0
			return vFloat(math.Abs(f))
		}
		return vFloat(f)
	default:
		for {
			s := r.str(o.str)
			if o.strOK == nil || o.strOK(s) {
				return vStr(s)
			}
		}
	}
}

func (r *Rand) okKey(o *genOpt) string {
	for {
		k := r.key(o.str)
		if o.keyOK == nil || o.keyOK(k) {
			return k
		}
	}
}

// doc makes a document, an object or array more often than a scalar
func (r *Rand) doc(o genOpt) *V {
	if o.maxSize == 0 {
		o.maxSize = 60
	}
	if o.depth == 0 {
		o.depth = 5
	}
	switch r.N(20) {
	case 0:
		return r.scalar(&o)
	case 1: // wide array
		n := pick(r, boundarySizes)
		ret := vArr()
		for i := 0; i < n; i++ {
			ret.A = append(ret.A, r.scalar(&o))
		}
		if o.noEmpty && n == 0 {
			ret.A = append(ret.A, vInt(1))
		}
		return ret
	case 2: // wide object
		n := pick(r, boundarySizes)
		ret := vDict()
		for i := 0; i < n; i++ {
			k := r.okKey(&o)
			if r.P(2, 3) {
				k = "k" + strconv.Itoa(r.N(100000))
			}
			ret.M[k] = r.scalar(&o)
		}
		if o.noEmpty && n == 0 {
			ret.M["a"] = vInt(1)
		}
		return ret
	case 3: // deep chain
		d := r.size(120)
		ret := r.scalar(&o)
		for i := 0; i < d; i++ {
			if r.P(1, 2) {
				ret = vArr(ret)
				if r.P(1, 4) {
					ret.A = append(ret.A, r.scalar(&o))
				}
			} else {
				ret = &V{K: KDict, M: map[string]*V{r.okKey(&o): ret}}
				if r.P(1, 4) {
					ret.M[r.okKey(&o)] = r.scalar(&o)
				}
			}
		}
		return ret
	default:
		budget := o.maxSize
		return r.tree(&o, o.depth, &budget, true)
	}
}

func (r *Rand) tree(o *genOpt, depth int, budget *int, top bool) *V {
	*budget--
	if depth <= 0 || *budget <= 0 || !top && r.P(1, 2) {
		return r.scalar(o)
	}
	n := r.size(40)
	if o.noEmpty && n == 0 {
		n = 1
	}
	if r.P(2, 5) {
		ret := &V{K: KArr}
		for i := 0; i < n && (*budget > 0 || i == 0); i++ {
			ret.A = append(ret.A, r.tree(o, depth-1, budget, false))
		}
		return ret
	}
	ret := vDict()
	for i := 0; i < n && (*budget > 0 || i == 0); i++ {
		ret.M[r.okKey(o)] = r.tree(o, depth-1, budget, false)
	}
	return ret
}

func (r *Rand) dict(o genOpt) *V {
	for {
		if v := r.doc(o); v.K == KDict {
			return v
		}
	}
}

// bigShapes names the shapes of large documents
var bigShapes = []string{"long array", "wide object", "long text", "long name", "deep arrays", "deep objects", "deep mix", "records", "tree", "numbers", "named records"}

// big makes a large document of a shape, with around size parts or bytes
func (r *Rand) big(shape string, size int, o genOpt) *V {
	small := func() *V {
		for {
			if v := r.scalar(&o); v.K != KStr || len(v.S) < 30 {
				return v
			}
		}
	}
	name := func(i int) string {
		for {
			k := pick(r, []string{"k", "k", "Key-", ""}) + strconv.Itoa(i)
			if r.P(1, 50) {
				k = r.okKey(&o) + strconv.Itoa(i)
			}
			if o.keyOK == nil || o.keyOK(k) {
				return k
			}
		}
	}
	text := func(ok func(string) bool) string {
		for {
			var sb strings.Builder
			odd := r.P(1, 2)
			unit := pick(r, []string{"x", "ab", "é", "word ", "0123456789"})
			for sb.Len() < size {
				if odd && r.P(1, 30) {
					sb.WriteString(pick(r, letters))
				} else {
					sb.WriteString(unit)
				}
			}
			s := sb.String() + pick(r, letters)
			if ok == nil || ok(s) {
				return s
			}
		}
	}
	depth := size
	if depth > 3000 {
		depth = 3000
	}
	switch shape {
	case "long array":
		ret := vArr()
		for i := 0; i < size; i++ {
			ret.A = append(ret.A, small())
		}
		return ret
	case "wide object":
		ret := vDict()
		for i := 0; i < size; i++ {
			ret.M[name(i)] = small()
		}
		return ret
	case "long text":
		return pick(r, []func(*V) *V{
			func(v *V) *V { return vArr(v, small()) },
			func(v *V) *V { return &V{K: KDict, M: map[string]*V{"a": small(), "b": v, "c": small()}} },
		})(vStr(text(o.strOK)))
	case "long name":
		return &V{K: KDict, M: map[string]*V{text(o.keyOK): small(), name(1): small(), name(2): vArr(small())}}
	case "deep arrays", "deep objects", "deep mix":
		ret := small()
		for i := 0; i < depth; i++ {
			if shape == "deep arrays" || shape == "deep mix" && r.P(1, 2) {
				ret = vArr(ret)
				if r.P(1, 9) {
					ret.A = append(ret.A, small())
				}
			} else {
				ret = &V{K: KDict, M: map[string]*V{name(r.N(9)): ret}}
				if r.P(1, 9) {
					ret.M[name(r.N(9)+10)] = small()
				}
			}
		}
		return ret
	case "records":
		ret := vArr()
		for i := 0; i < size/5+1; i++ {
			ret.A = append(ret.A, &V{K: KDict, M: map[string]*V{"id": vInt(int64(i)), "name": small(), "list": vArr(small(), small())}})
		}
		return ret
	case "named records":
		ret := vDict()
		for i := 0; i < size/3+1; i++ {
			ret.M[name(i)] = pick(r, []*V{vArr(small()), {K: KDict, M: map[string]*V{"x": small()}}, small(), vArr(), vDict()})
		}
		return ret
	case "tree":
		ret := vDict()
		n := 2
		for n*n*n < size {
			n++
		}
		for i := 0; i < n; i++ {
			a := vArr()
			for j := 0; j < n; j++ {
				d := vDict()
				for k := 0; k < n; k++ {
					d.M[name(k)] = small()
				}
				a.A = append(a.A, d)
			}
			ret.M[name(i)] = a
		}
		return ret
	case "numbers":
		ret := vArr()
		for i := 0; i < size; i++ {
			if r.P(1, 2) {
				ret.A = append(ret.A, vInt(r.int64v()))
			} else {
				f := r.float()
				if f == 0 {
					f = 0
				}
				ret.A = append(ret.A, vFloat(math.Abs(f)))
			}
		}
		return ret
	}
	panic(shape)
}

var bigSizes = []int{300, 1000, 5000, 40000}

// bigCase makes the large document of case i of a workload
func bigCase(r *Rand, i int, o genOpt) *V {
	return r.big(bigShapes[i%len(bigShapes)], bigSizes[i/len(bigShapes)%len(bigSizes)], o)
}
