package vt

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// ---- literal dictionary ------------------------------------------------------------

var (
	dictOnce sync.Once
	dictStrs []string
	dictInts []int64
)

func loadDict() {
	dictOnce.Do(func() {
		strs, ints := map[string]bool{}, map[int64]bool{}
		var files []string
		_ = filepath.Walk(Repo(), func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
				files = append(files, p)
			}
			return nil
		})
		sort.Strings(files)
		for _, p := range files {
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, p, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if _, ok := n.(*ast.ImportSpec); ok {
					return false
				}
				if _, ok := n.(*ast.Field); ok {
					return false // struct tags
				}
				b, ok := n.(*ast.BasicLit)
				if !ok {
					return true
				}
				switch b.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(b.Value); err == nil && len(s) > 0 && len(s) < 24 && utf8.ValidString(s) && !strings.Contains(s, "%") {
						strs[s] = true
					}
				case token.CHAR:
					if r, _, _, err := strconv.UnquoteChar(b.Value[1:len(b.Value)-1], '\''); err == nil && utf8.ValidRune(r) {
						strs[string(r)] = true
					}
				case token.INT:
					if i, err := strconv.ParseInt(b.Value, 0, 64); err == nil {
						for d := int64(-1); d <= 1; d++ {
							ints[i+d] = true
						}
					}
				}
				return true
			})
		}
		for s := range strs {
			dictStrs = append(dictStrs, s)
		}
		sort.Strings(dictStrs)
		for i := range ints {
			dictInts = append(dictInts, i)
		}
		sort.Slice(dictInts, func(i, j int) bool { return dictInts[i] < dictInts[j] })
		if len(dictStrs) == 0 {
			dictStrs = []string{"x"}
		}
		if len(dictInts) == 0 {
			dictInts = []int64{0}
		}
	})
}

// DictStr draws a string literal of the source tree under test.
func DictStr(t *rapid.T) string {
	loadDict()
	return dictStrs[rapid.IntRange(0, len(dictStrs)-1).Draw(t, "dictStr")]
}

// DictInt draws an integer literal of the source tree under test, or a neighbour of one.
func DictInt(t *rapid.T) int64 {
	loadDict()
	return dictInts[rapid.IntRange(0, len(dictInts)-1).Draw(t, "dictInt")]
}

// DictLen draws a length in [0,max], often a neighbour of a literal of the source tree.
func DictLen(t *rapid.T, max int) int {
	loadDict()
	switch N(t, 0, 3, "lenKind") {
	case 0, 1:
		m := max
		if m > 6 {
			m = 6
		}
		return N(t, 0, m, "len")
	case 2:
		hi := sort.Search(len(dictInts), func(i int) bool { return dictInts[i] > int64(max) })
		lo := sort.Search(len(dictInts), func(i int) bool { return dictInts[i] >= 0 })
		if hi > lo {
			return int(dictInts[N(t, lo, hi-1, "lenDict")])
		}
	}
	return N(t, 0, max, "len")
}

// ---- scalars -----------------------------------------------------------------------

// N draws an int in [a,b].
func N(t *rapid.T, a, b int, label string) int {
	// rapid prefers small numbers and the limits, so large ranges are drawn evenly at times
	if b-a >= 100 && U(t, 0, 3, label+" evenly") == 3 {
		return U(t, a, b, label)
	}
	return rapid.IntRange(a, b).Draw(t, label)
}

// U draws an int in [a, b] evenly: from single bits, which are the draws of rapid without a bias.
func U(t *rapid.T, a, b int, label string) int {
	n := uint64(b - a + 1)
	k := bits.Len64(n - 1)
	if k == 0 {
		return a
	}
	if n&(n-1) != 0 {
		k += 6
	}
	return rapid.Custom(func(t *rapid.T) int {
		x := uint64(0)
		for i := 0; i < k; i++ {
			x <<= 1
			if rapid.Bool().Draw(t, "bit") {
				x |= 1
			}
		}
		hi, lo := bits.Mul64(x, n)
		return a + int(hi<<(64-uint(k))|lo>>uint(k))
	}).Draw(t, label)
}

// Bool draws a bool.
func Bool(t *rapid.T, label string) bool { return rapid.Bool().Draw(t, label) }

// One draws one of the given strings.
func One(t *rapid.T, label string, xs ...string) string {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

// Chance is true with probability 1/n, and false in the minimal case.
func Chance(t *rapid.T, n int, label string) bool {
	return rapid.IntRange(0, n-1).Draw(t, label) == n-1
}

var intEdges = func() (out []int64) {
	for _, b := range []int64{0, 10, 23, 24, 32, 100, 127, 128, 255, 256, 4096, 32767, 32768, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 53, 1<<62 + 12345, math.MaxInt64} {
		for _, d := range []int64{-1, 0, 1} {
			if b == math.MaxInt64 && d == 1 {
				continue
			}
			out = append(out, b+d, -(b + d))
		}
	}
	return append(out, math.MinInt64, math.MinInt64+1)
}()

// Int draws a signed 64-bit integer biased to boundaries.
func Int(t *rapid.T) int64 {
	switch N(t, 0, 4, "intKind") {
	case 0:
		return int64(N(t, -30, 30, "int"))
	case 1, 2:
		return intEdges[N(t, 0, len(intEdges)-1, "intEdge")]
	case 3:
		return DictInt(t)
	default:
		return rapid.Int64().Draw(t, "int64")
	}
}

var floatEdges = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 1.5, 3.14159, 0.1, 0.2, 1e-7, 1e-6, 1e20, 1e21, 1e22, -1e21, 123456789.125, 4503599627370497.5,
	9007199254740992, 9007199254740993, 9223372036854775807, 9223372036854775808, 18446744073709551615, 18446744073709551616, 1e19, -9.3e18, -9223372036854775808, -9223372036854775809 * 2,
	math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32,
	65504, 65505, 65520, 5.960464477539063e-08, 0.00006103515625, 16777217, 1e300, 1e-300, 2.5e-5, 100, 255, 256, 65535.5,
	36028797018963968, -36028797018963968, 4611686018427388928, 72057594037927945, 144115188075855872, -1152921504606846977}

// Float draws a finite float64.
func Float(t *rapid.T) float64 {
	switch N(t, 0, 4, "floatKind") {
	case 0:
		return float64(N(t, -1000, 1000, "fl")) / 8
	case 1, 2:
		return floatEdges[N(t, 0, len(floatEdges)-1, "floatEdge")]
	case 3:
		return float64(N(t, -100000, 100000, "fl")) / 1000
	default:
		f := math.Float64frombits(rapid.Uint64().Draw(t, "floatBits"))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return 7.25
		}
		return f
	}
}

var strAtoms = []string{"", "a", "b", "z", "A", " ", "  ", "0", "1", "-1", "3.14", "1e5", "007", "true", "false", "null", "TRUE", "{}", "[]", "[1,2]", `{"a":1}`,
	",", ";", "|", "\t", "\"", `"`, `\`, `\\`, `\"`, `\n`, `\u0041`, "\n", "\n\n", "'", "`", ".", "/", "#", "&", "<", ">", "<b>", "&amp;", "=1+1",
	"é", "ß", "日本", "世界", "😀", "👩\u200d👩\u200d👧", "\u2028", "\u2029", "\u00a0", "\ufeff", "\ufffd", "ﬁ", "İ", "𝒳", "\u0301",
	"\x00", "\x01", "\x1f", "\x7f", "\b", "\f", "\v", "id", "name", "title", "path", "qri", "EOF", "NaN", "Inf", "0x10", "1_000", "+5", "---\n", "--", "%s", "${x}"}

// StrOpts limits generated strings.
type StrOpts struct {
	NoCR     bool // no carriage return
	Max      int  // maximum length in bytes, 0 = 512
	Big      int  // if > 0, sometimes a repeated pattern of up to this many bytes
	XML      bool // only characters XML 1.0 can carry
	Simple   bool // identifier-like
	NonEmpty bool
}

// Str draws a valid UTF-8 string.
func Str(t *rapid.T, o StrOpts) string {
	s := str(t, o)
	if o.NoCR {
		s = strings.ReplaceAll(s, "\r", "")
	}
	if o.XML {
		s = strings.Map(func(r rune) rune {
			if r == '\t' || r == '\n' || (r >= 0x20 && r <= 0xd7ff) || (r >= 0xe000 && r <= 0xfffd) || (r >= 0x10000 && r <= 0x10ffff) {
				return r
			}
			return -1
		}, s)
	}
	if o.NonEmpty && s == "" {
		s = "k"
	}
	return s
}

var bigLens = []int{22, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 254, 255, 256, 257, 511, 512, 995, 997, 998, 1000, 1023, 1024, 4090, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 65534, 65535, 65536, 65537, 131072, 262138, 262140, 262142, 262143, 262144, 262145, 262150, 270000, 524288, 600000}

var fillers = []string{"x", "ab", "é", "😀", `"`, `\`, "\n", "0", " ", "日本語", `a\"b`, "<&>", "\x01", "abcdefghijklmnopqrstuvwxyz0123456789"}

func str(t *rapid.T, o StrOpts) string {
	if o.Simple {
		n := N(t, 1, 8, "slen")
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz_"[N(t, 0, 26, "sch")]
		}
		return string(b)
	}
	if o.Big > 0 && Chance(t, 24, "bigStr") {
		return BigStr(t, o.Big)
	}
	switch N(t, 0, 7, "strKind") {
	case 0:
		return strAtoms[N(t, 0, len(strAtoms)-1, "atom")]
	case 1:
		n := N(t, 0, 8, "natoms")
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(strAtoms[N(t, 0, len(strAtoms)-1, "atom")])
		}
		return b.String()
	case 2:
		return DictStr(t)
	case 3:
		return rapid.StringN(0, 12, 64).Draw(t, "uni")
	case 4:
		return fmt.Sprint(Int(t))
	default:
		n := N(t, 0, 10, "alen")
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(N(t, 32, 126, "ach"))
		}
		return string(b)
	}
}

// BigStr draws a repeated pattern whose length is near a boundary.
func BigStr(t *rapid.T, max int) string {
	hi := sort.SearchInts(bigLens, max+1)
	n := 1
	if hi > 0 {
		n = bigLens[N(t, 0, hi-1, "bigLen")]
	}
	n += N(t, -3, 3, "bigAdj")
	if n < 0 {
		n = 0
	}
	if n > max {
		n = max
	}
	f := fillers[N(t, 0, len(fillers)-1, "filler")]
	p := strings.Repeat("p", N(t, 0, 3, "pre"))
	s := p + strings.Repeat(f, n/len(f)+1)
	s = s[:n]
	for !utf8.ValidString(s) {
		s = s[:len(s)-1]
	}
	return s
}

// ---- values ------------------------------------------------------------------------

// ValOpts limits generated values.
type ValOpts struct {
	Str   StrOpts
	Depth int
	Bytes bool // allow []byte
	Ints  bool // only integers, no floats
	Width int  // max members per container, 0 = 5
}

// Scalar draws nil, bool, int64, float64, string (or []byte).
func Scalar(t *rapid.T, o ValOpts) interface{} {
	hi := 7
	if o.Bytes {
		hi = 8
	}
	switch N(t, 0, hi, "scalarKind") {
	case 0:
		return nil
	case 1:
		return Bool(t, "bool")
	case 2, 3:
		return Int(t)
	case 4, 5:
		if o.Ints {
			return Int(t)
		}
		return Float(t)
	case 8:
		return Bytes(t, 300)
	default:
		return Str(t, o.Str)
	}
}

// Bytes draws a byte string.
func Bytes(t *rapid.T, max int) []byte {
	if Chance(t, 3, "bigBytes") {
		n := DictLen(t, max)
		b := make([]byte, n)
		x := byte(N(t, 0, 255, "fill"))
		for i := range b {
			b[i] = x + byte(i)
		}
		return b
	}
	b := rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "bytes")
	if b == nil {
		b = []byte{}
	}
	return b
}

// Value draws a nested value of JSON kinds: nil, bool, int64, float64, string,
// []interface{}, map[string]interface{}.
func Value(t *rapid.T, o ValOpts) interface{} {
	if o.Depth <= 0 {
		return Scalar(t, o)
	}
	w := o.Width
	if w == 0 {
		w = 5
	}
	switch k := N(t, 0, 9, "valKind"); {
	case k < 6:
		return Scalar(t, o)
	case k < 8:
		return Array(t, o, w)
	default:
		return Object(t, o, w)
	}
}

func wideLen(t *rapid.T) int {
	if Chance(t, 12, "veryWide") {
		return N(t, 300, 2500, "wide")
	}
	return N(t, 20, 300, "wide")
}

// Array draws an array of nested values.
func Array(t *rapid.T, o ValOpts, max int) []interface{} {
	o.Depth--
	if Chance(t, 30, "wideArr") {
		n := wideLen(t)
		v := Scalar(t, o)
		a := make([]interface{}, n)
		for i := range a {
			a[i] = v
		}
		return a
	}
	n := N(t, 0, max, "arrLen")
	a := make([]interface{}, n)
	for i := range a {
		a[i] = Value(t, o)
	}
	return a
}

// Object draws an object of nested values.
func Object(t *rapid.T, o ValOpts, max int) map[string]interface{} {
	o.Depth--
	m := map[string]interface{}{}
	if Chance(t, 30, "wideObj") {
		n := wideLen(t)
		v := Scalar(t, o)
		p := Str(t, StrOpts{Max: 8})
		for i := 0; i < n; i++ {
			m[p+strconv.Itoa(i)] = v
		}
		return m
	}
	n := N(t, 0, max, "objLen")
	for i := 0; i < n; i++ {
		m[Str(t, StrOpts{Big: 0, NoCR: o.Str.NoCR})] = Value(t, o)
	}
	return m
}

// Deep draws a deeply nested value.
func Deep(t *rapid.T, o ValOpts, max int) interface{} {
	d := N(t, 1, max, "nest")
	v := Scalar(t, o)
	obj := Bool(t, "nestObj")
	for i := 0; i < d; i++ {
		if obj && i%2 == 0 {
			v = map[string]interface{}{"k": v}
		} else {
			v = []interface{}{v}
		}
	}
	return v
}

// Clone copies a generated value.
func Clone(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		if x == nil {
			return x
		}
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = Clone(x[i])
		}
		return out
	case map[string]interface{}:
		if x == nil {
			return x
		}
		out := make(map[string]interface{}, len(x))
		for k, e := range x {
			out[k] = Clone(e)
		}
		return out
	case []byte:
		return append([]byte{}, x...)
	}
	return v
}

// SortedKeys gives the keys of a map in order.
func SortedKeys(m map[string]interface{}) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// From draws one of the values.
func From[T any](t *rapid.T, label string, xs []T) T {
	return xs[N(t, 0, len(xs)-1, label)]
}

// Weight counts the nodes of a value and its text in units of 16 bytes.
func Weight(v interface{}) int {
	switch x := v.(type) {
	case string:
		return 1 + len(x)/16
	case []byte:
		return 1 + len(x)/16
	case []interface{}:
		n := 1
		for _, e := range x {
			n += Weight(e)
		}
		return n
	case map[string]interface{}:
		n := 1
		for k, e := range x {
			n += 1 + len(k)/16 + Weight(e)
		}
		return n
	}
	return 1
}
