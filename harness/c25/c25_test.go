package c25

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"testing"

	"github.com/qri-io/dataset/vals"
	"verif/dx"
	"verif/jx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a text (a rendered value, a near miss of one, or arbitrary bytes), a typed value to format, or two or three texts to compare; non-trivial = text inferred as other than a string, a value, or texts that all parse; distinct by texts and type")
}

func TestC25(t *testing.T) {
	vt.Check(t, "infer", 300000, 4000000, infer)
	vt.Check(t, "canonical", 150000, 2000000, canonical)
	vt.Check(t, "compare", 120000, 2000000, compare)
	vt.Check(t, "names", 4000, 60000, names)
}

var all = []vals.Type{vals.TypeNull, vals.TypeInteger, vals.TypeNumber, vals.TypeBoolean, vals.TypeString, vals.TypeObject, vals.TypeArray}

// text draws something that looks like a value, or anything.
func text(c *vt.C) string {
	var s string
	switch vt.N(c.T, 0, 9, "textKind") {
	case 0:
		s = vt.One(c.T, "word", "", "t", "f", "T", "F", "true", "false", "TRUE", "FALSE", "True", "False", "tRUE", "null", "NULL", "NaN", "nan", "Inf", "-Inf", "+Inf", "-inf", "infinity", "-", "e", "e5", "+", ".5", "-.5", "5.", "0x1F", "0b1", "-0", "00", "007", "1_000", "0x_1p-2", "1e", "1e5", "1E+5", "-1e-5", "1,5", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "1e38", "1e39", "-3.5e38", "1e308", "1e309", "1e-400", "3.4028236e38", "{", "[", "{}", "[]", " {}", "\n[1]", " 1", "1 ", "\t1", " true", "-a", "1a", "--1", "+4", "[1,]", "[sic]", `"x"`, `"`)
	case 1:
		s = strconv.FormatInt(vt.Int(c.T), 10)
	case 2:
		s = jx.FloatText(c.T, vt.Float(c.T))
	case 3:
		s = vt.Str(c.T, vt.StrOpts{})
		if vt.Chance(c.T, 60, "long") {
			s = vt.One(c.T, "first", "", "1", "t", "-", "{", "[", "n", "a") + vt.BigStr(c.T, 70000)
		}
	case 4:
		s = string(jx.Join(c.T, jx.Tokens(c.T, vt.Value(c.T, vt.ValOpts{Depth: 2})), 3, true))
	case 5: // long numerals
		n := vt.N(c.T, 1, 45, "digits")
		var b strings.Builder
		if vt.Chance(c.T, 40, "veryLong") {
			b.WriteString(strings.Repeat(vt.One(c.T, "digit", "0", "1", "9", "37"), vt.N(c.T, 1, 400, "times")))
			if vt.Bool(c.T, "fraction") {
				b.WriteByte('.')
			}
		}
		if vt.Bool(c.T, "neg") {
			b.WriteByte('-')
		}
		for i := 0; i < n; i++ {
			b.WriteByte(byte('0' + vt.N(c.T, 0, 9, "digit")))
		}
		s = b.String()
	case 6:
		s = string(vt.Bytes(c.T, 12))
	case 7, 8: // soup of significant characters
		n := vt.N(c.T, 0, 7, "soup")
		for i := 0; i < n; i++ {
			s += vt.One(c.T, "char", "-", "1", "0", "e", "{", "[", "]", "}", "\"", " ", "\n", "+", ".", "9", "t", "a", ",", ":", "x")
		}
	default: // a value with a blemish
		s = strconv.FormatInt(vt.Int(c.T), 10)
		k := vt.N(c.T, 0, len(s), "at")
		s = s[:k] + vt.One(c.T, "blemish", " ", "-", ".", "e", "x", "\"", "+", ",") + s[k:]
	}
	return s
}

func inRange(err error) bool {
	ne, ok := err.(*strconv.NumError)
	return !(ok && ne.Err == strconv.ErrRange)
}

// wellFormed tells whether a text is a JSON text of the container kind.
func wellFormed(s string, kind byte) bool {
	tr := strings.TrimLeft(s, " \t\r\n")
	return json.Valid([]byte(s)) && tr != "" && tr[0] == kind
}

func exact(v float64, s string) bool {
	r, _, err := big.ParseFloat(s, 0, 3000, big.ToNearestEven)
	if err != nil {
		return true // notation beyond math/big
	}
	f, _ := r.Float64()
	return f == v
}

func infer(c *vt.C) {
	s := text(c)
	in := []byte(s)
	ty := vals.ParseType(in)
	if ty2 := vals.ParseType([]byte(s)); ty2 != ty || string(in) != s {
		c.Fatalf("inference of %q: %v then %v (text now %q)", s, ty, ty2, in)
	}
	found := false
	for _, a := range all {
		found = found || a == ty
	}
	if !found {
		c.Fatalf("%q inferred as %d", s, ty)
	}
	got, err := ty.Parse([]byte(s))
	container := ty == vals.TypeArray || ty == vals.TypeObject
	switch {
	case container:
		kind := byte('[')
		if ty == vals.TypeObject {
			kind = '{'
		}
		if ok := wellFormed(s, kind); ok != (err == nil) {
			c.Fatalf("%q inferred as %v, well-formed=%v, parsed to %v, %v", s, ty, ok, got, err)
		}
		if err == nil {
			want, jerr := jx.Value([]byte(s))
			if jerr != nil {
				return // numbers out of range
			}
			if d := vt.Diff(toFloats(want), got, vt.CmpOpts{}); d != "" {
				c.Fatalf("%q parsed as %v: %s", s, ty, d)
			}
		}
	case err != nil && inRange(err):
		c.Fatalf("%q inferred as %v, which does not parse it: %v", s, ty, err)
	case err == nil:
		ok := true
		switch ty {
		case vals.TypeString:
			ok = got == s
		case vals.TypeBoolean:
			ok = got == strings.HasPrefix(strings.ToLower(s), "t")
		case vals.TypeInteger:
			i, iok := got.(int64)
			n, bok := new(big.Int).SetString(s, 10)
			ok = iok && bok && n.Cmp(big.NewInt(i)) == 0
		case vals.TypeNumber:
			f, fok := got.(float64)
			ok = fok && exact(f, s)
		case vals.TypeNull:
			ok = got == nil
		}
		if !ok {
			c.Fatalf("%q inferred as %v parses to %s", s, ty, vt.Show(got))
		}
	}
	if err == nil {
		again(c, ty, got)
	}
	// what text denotes a value of a type is inferred as that type
	if want, ok := denotes(s); ok && want != ty {
		c.Fatalf("%q inferred as %v, want %v", s, ty, want)
	}
	// predicates agree with the parsers
	if vals.IsInteger(in) {
		if _, err := vals.ParseInteger(in); err != nil && inRange(err) {
			c.Fatalf("IsInteger(%q) but %v", s, err)
		}
	} else if ty == vals.TypeInteger {
		c.Fatalf("%q inferred as an integer but IsInteger says no", s)
	}
	if vals.IsFloat(in) {
		if _, err := vals.ParseNumber(in); err != nil && inRange(err) {
			c.Fatalf("IsFloat(%q) but %v", s, err)
		}
	} else if ty == vals.TypeNumber || ty == vals.TypeInteger {
		c.Fatalf("%q inferred as %v but IsFloat says no", s, ty)
	}
	if vals.IsBoolean(in) != (ty == vals.TypeBoolean) {
		c.Fatalf("%q inferred as %v but IsBoolean says %v", s, ty, vals.IsBoolean(in))
	}
	if json.Valid(in) {
		want := ""
		switch strings.TrimLeft(s, " \t\r\n")[0] {
		case '{':
			want = "object"
		case '[':
			want = "array"
		}
		if k := vals.JSONArrayOrObject(in); k != want {
			c.Fatalf("outermost container of %q is %q, want %q", s, k, want)
		}
	}
	c.Labelf("%v ok=%v", ty, err == nil)
	if ty != vals.TypeString {
		c.NonTrivial(s)
	}
	c.Sample("%q -> %v", s, ty)
}

// denotes gives the type of a text in plain notation.
func denotes(s string) (vals.Type, bool) {
	switch s {
	case "true", "false", "t", "f", "TRUE", "FALSE", "T", "F", "True", "False":
		return vals.TypeBoolean, true
	case "null":
		return vals.TypeNull, true
	case "":
		return vals.TypeString, true
	}
	if !json.Valid([]byte(s)) {
		// no number, and no container: text
		if !strings.ContainsAny(s, "{[") {
			if _, err := strconv.ParseFloat(s, 64); err != nil && inRange(err) {
				return vals.TypeString, true
			}
		}
		return 0, false
	}
	t := strings.TrimLeft(s, " \n")
	switch {
	case t[0] == '{':
		return vals.TypeObject, true
	case t[0] == '[':
		return vals.TypeArray, true
	case t[0] == '"':
		return vals.TypeString, true
	}
	if s != strings.TrimSpace(s) || s[0] != '-' && (s[0] < '0' || s[0] > '9') {
		return 0, false
	}
	if _, err := strconv.ParseFloat(s, 64); err != nil {
		return 0, false // out of range
	}
	if _, ok := new(big.Int).SetString(s, 10); ok {
		return vals.TypeInteger, true
	}
	return vals.TypeNumber, true
}

func toFloats(v interface{}) interface{} {
	switch x := v.(type) {
	case int64:
		return float64(x)
	case []interface{}:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = toFloats(x[i])
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k := range x {
			out[k] = toFloats(x[k])
		}
		return out
	}
	return v
}

// again formats a parsed value and parses it.
func again(c *vt.C, ty vals.Type, v interface{}) {
	s, err := ty.ValueToString(v)
	if err != nil {
		c.Fatalf("formatting %s (%T) parsed as %v: %v", vt.Show(v), v, ty, err)
	}
	b, err := ty.ValueToBytes(v)
	if err != nil || string(b) != s {
		c.Fatalf("%s as bytes %q (%v), as text %q", vt.Show(v), b, err, s)
	}
	back, err := ty.Parse([]byte(s))
	if err != nil {
		c.Fatalf("%s as %v formats to %q, which does not parse: %v", vt.Show(v), ty, s, err)
	}
	if f, ok := v.(float64); ok && math.IsNaN(f) {
		if g, ok := back.(float64); !ok || !math.IsNaN(g) {
			c.Fatalf("NaN comes back as %v", back)
		}
		return
	}
	if d := vt.Diff(v, back, vt.CmpOpts{}); d != "" {
		c.Fatalf("%s as %v formats to %q and parses to another value: %s", vt.Show(v), ty, s, d)
	}
}

func canonical(c *vt.C) {
	var v interface{}
	var s string
	var ty vals.Type
	switch vt.N(c.T, 0, 5, "valueKind") {
	case 0:
		i := vt.Int(c.T)
		v, s, ty = i, strconv.FormatInt(i, 10), vals.TypeInteger
	case 1:
		f := vt.Float(c.T)
		v, s, ty = f, jx.FloatText(c.T, f), vals.TypeNumber
	case 2:
		b := vt.Bool(c.T, "bool")
		v, s, ty = b, fmt.Sprint(b), vals.TypeBoolean
	case 3:
		v = dx.Arr(vt.Array(c.T, vt.ValOpts{Depth: 2}, 5))
		v = toFloats(v)
		s, ty = string(jx.Join(c.T, jx.Tokens(c.T, v), 3, true)), vals.TypeArray
	case 4:
		v = toFloats(vt.Object(c.T, vt.ValOpts{Depth: 2}, 5))
		s, ty = string(jx.Join(c.T, jx.Tokens(c.T, v), 3, true)), vals.TypeObject
	default:
		s = vt.Str(c.T, vt.StrOpts{})
		v, ty = s, vals.TypeString
	}
	got, err := ty.Parse([]byte(s))
	if err != nil {
		c.Fatalf("parsing %q as %v: %v", s, ty, err)
	}
	if d := vt.Diff(v, got, vt.CmpOpts{}); d != "" {
		c.Fatalf("%q as %v: %s", s, ty, d)
	}
	again(c, ty, v)
	if ty != vals.TypeString && json.Valid([]byte(s)) && strings.TrimLeft(s, " \n") == strings.TrimLeft(s, " \n\r\t") {
		want := ty
		if _, ok := new(big.Int).SetString(s, 10); ok && ty == vals.TypeNumber {
			want = vals.TypeInteger
		}
		if in := vals.ParseType([]byte(s)); in != want {
			c.Fatalf("%q inferred as %v, want %v", s, in, want)
		}
	}
	// a value of another type is refused
	wrong := map[vals.Type]interface{}{vals.TypeInteger: "1", vals.TypeNumber: "1", vals.TypeBoolean: 1, vals.TypeString: 1.5, vals.TypeObject: make(chan int), vals.TypeArray: func() {}}
	if w, ok := wrong[ty]; ok {
		if str, err := ty.ValueToString(w); err == nil {
			c.Fatalf("%#v formatted as %v gives %q", w, ty, str)
		}
	}
	if str, err := vals.TypeNull.ValueToString(v); err == nil {
		c.Fatalf("%s formatted as null gives %q", vt.Show(v), str)
	}
	if i, ok := v.(int64); ok {
		if str, err := ty.ValueToString(int(i)); err != nil || str != s {
			c.Fatalf("int %d formats to %q, %v", i, str, err)
		}
	}
	c.Labelf("%v", ty)
	c.NonTrivial(ty, s)
	c.Sample("%v %q", ty, s)
}

func cmpText(c *vt.C, ty vals.Type, label string) string {
	if vt.Chance(c.T, 10, "empty"+label) {
		return ""
	}
	switch ty {
	case vals.TypeInteger:
		s := strconv.FormatInt(vt.Int(c.T), 10)
		if vt.Chance(c.T, 6, "small") {
			s = vt.One(c.T, "smallInt", "0", "-0", "+1", "1", "01", "-1", "2", "10", "9", "99999999999999999999", "x", "1.0")
		}
		return s
	case vals.TypeNumber:
		s := jx.FloatText(c.T, vt.Float(c.T))
		if vt.Chance(c.T, 4, "special") {
			if vt.Chance(c.T, 8, "veryLong") {
				return vt.One(c.T, "sign", "", "-") + strings.Repeat(vt.One(c.T, "digit", "1", "9", "37"), vt.N(c.T, 20, 300, "times")) + vt.One(c.T, "tail", "", ".5", "e-300", "e2")
			}
			s = vt.One(c.T, "specialNum", "0", "-0", "NaN", "nan", "Inf", "-Inf", "1", "1.0", "10", "9", "1e999", "x", "+1", "0.1", "0.10")
		}
		return s
	}
	if vt.Chance(c.T, 30, "long") {
		return vt.BigStr(c.T, 5000) + vt.One(c.T, "end", "", "a", "b")
	}
	return vt.One(c.T, "str", "a", "b", "ab", "A", "é", "10", "9", " a", "") + vt.Str(c.T, vt.StrOpts{Simple: true, Max: 3})
}

// rank orders texts: 0 unusable.
func want(ty vals.Type, a, b string) (int, bool) {
	sign := func(x bool, y bool) int {
		if x {
			return 1
		}
		if y {
			return -1
		}
		return 0
	}
	if a == "" || b == "" {
		return sign(a != "", b != ""), true
	}
	switch ty {
	case vals.TypeString:
		return bytes.Compare([]byte(a), []byte(b)), true
	case vals.TypeInteger:
		x, e1 := strconv.ParseInt(a, 10, 64)
		y, e2 := strconv.ParseInt(b, 10, 64)
		return sign(x > y, x < y), e1 == nil && e2 == nil
	default:
		x, e1 := strconv.ParseFloat(a, 64)
		y, e2 := strconv.ParseFloat(b, 64)
		return sign(x > y, x < y), e1 == nil && e2 == nil
	}
}

func isNaN(s string) bool { return strings.EqualFold(s, "nan") }

func compare(c *vt.C) {
	ty := []vals.Type{vals.TypeInteger, vals.TypeNumber, vals.TypeString}[vt.N(c.T, 0, 2, "type")]
	x := []string{cmpText(c, ty, "a"), cmpText(c, ty, "b"), cmpText(c, ty, "c")}
	if vt.Chance(c.T, 5, "same") {
		x[1] = x[0]
	}
	if x[0] != "" && vt.Chance(c.T, 4, "near") {
		switch vt.N(c.T, 0, 5, "how") {
		case 0:
			x[1] = strings.ToUpper(x[0])
		case 1:
			x[1] = strings.ToLower(x[0])
		case 2:
			x[1] = x[0] + vt.One(c.T, "tail", " ", "\x00", "0", "a", "\n")
		case 3:
			x[1] = x[0][:len(x[0])-1]
		case 4:
			x[1] = vt.One(c.T, "lead", " ", "0", "+", "-", "\t") + x[0]
		case 5:
			b := []byte(x[0])
			b[vt.N(c.T, 0, len(b)-1, "at")] ^= byte(1) << vt.N(c.T, 0, 7, "bit")
			x[1] = string(b)
		}
	}
	var r [3][3]int
	good := true
	for i, a := range x {
		for j, b := range x {
			got, err := vals.CompareTypeBytes([]byte(a), []byte(b), ty)
			w, ok := want(ty, a, b)
			if ok != (err == nil) {
				c.Fatalf("comparing %q and %q as %v: %d, %v", a, b, ty, got, err)
			}
			if !ok {
				good = false
				continue
			}
			if !(ty == vals.TypeNumber && (isNaN(a) || isNaN(b))) && got != w {
				c.Fatalf("comparing %q and %q as %v: %d, want %d", a, b, ty, got, w)
			}
			r[i][j] = got
			if a != "" && b != "" {
				var d int
				switch ty {
				case vals.TypeInteger:
					d, err = vals.CompareIntegerBytes([]byte(a), []byte(b))
				case vals.TypeNumber:
					d, err = vals.CompareNumberBytes([]byte(a), []byte(b))
				default:
					continue
				}
				if err != nil || d != got {
					c.Fatalf("comparing %q and %q as %v: %d and directly %d, %v", a, b, ty, got, d, err)
				}
			}
		}
	}
	if good {
		for i := range x {
			for j := range x {
				if r[i][j] != -r[j][i] {
					c.Fatalf("%q against %q as %v is %d, the other way round %d", x[i], x[j], ty, r[i][j], r[j][i])
				}
				for k := range x {
					if r[i][j] <= 0 && r[j][k] <= 0 && r[i][k] > 0 {
						c.Fatalf("not transitive as %v: %q", ty, x)
					}
				}
			}
		}
		c.NonTrivial(ty, strings.Join(x, "\x00"))
	}
	for _, o := range []vals.Type{vals.TypeBoolean, vals.TypeObject, vals.TypeArray, vals.TypeUnknown} {
		if x[0] != "" && x[1] != "" {
			if _, err := vals.CompareTypeBytes([]byte(x[0]), []byte(x[1]), o); err == nil {
				c.Fatalf("compared %q as %v", x, o)
			}
		}
	}
	c.Sample("%v %q", ty, x)
}

func names(c *vt.C) {
	want := map[string]vals.Type{"string": vals.TypeString, "integer": vals.TypeInteger, "number": vals.TypeNumber, "boolean": vals.TypeBoolean, "object": vals.TypeObject, "array": vals.TypeArray, "null": vals.TypeNull}
	s := vt.One(c.T, "name", "string", "integer", "number", "boolean", "object", "array", "null", "", "String", "int", "float", "bytes", " string", "any", "double")
	if vt.Chance(c.T, 4, "other") {
		s = vt.Str(c.T, vt.StrOpts{Simple: true})
	}
	ty, known := want[s]
	got := vals.TypeFromString(s)
	if got != ty { // zero when unknown
		c.Fatalf("type named %q is %d, want %d", s, got, ty)
	}
	if known && got.String() != s {
		c.Fatalf("type %q is named %q", s, got.String())
	}
	var back vals.Type
	q, _ := json.Marshal(s)
	err := json.Unmarshal(q, &back)
	if known != (err == nil) || back != ty {
		c.Fatalf("type %s from JSON: %d, %v", q, back, err)
	}
	if known {
		out, err := json.Marshal(got)
		if err != nil || string(out) != string(q) {
			c.Fatalf("type %q to JSON: %s, %v", s, out, err)
		}
		c.NonTrivial(s)
	}
	for _, bad := range []string{"1", "{}", "[]", "true", `["string"]`} {
		if json.Unmarshal([]byte(bad), &back) == nil {
			c.Fatalf("type from JSON %s: %v", bad, back)
		}
	}
	if _, err := vals.TypeUnknown.Parse([]byte(s)); err == nil {
		c.Fatalf("parsed %q as unknown type", s)
	}
}
