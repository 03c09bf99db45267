package jx

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf16"

	"pgregory.net/rapid"
	"verif/vt"
)

// Tokens renders a value as JSON tokens with random number notation and escapes.
func Tokens(t *rapid.T, v interface{}) []string {
	var out []string
	toks(t, v, &out)
	return out
}

func toks(t *rapid.T, v interface{}, out *[]string) {
	add := func(s string) { *out = append(*out, s) }
	switch x := v.(type) {
	case nil:
		add("null")
	case bool:
		add(strconv.FormatBool(x))
	case int64:
		add(strconv.FormatInt(x, 10))
	case float64:
		add(FloatText(t, x))
	case string:
		add(StringText(t, x))
	case []interface{}:
		add("[")
		for i, e := range x {
			if i > 0 {
				add(",")
			}
			toks(t, e, out)
		}
		add("]")
	case map[string]interface{}:
		add("{")
		for i, k := range vt.SortedKeys(x) {
			if i > 0 {
				add(",")
			}
			add(StringText(t, k))
			add(":")
			toks(t, x[k], out)
		}
		add("}")
	default:
		panic(fmt.Sprintf("render %T", v))
	}
}

// FloatText writes a float in one of the notations JSON allows.
func FloatText(t *rapid.T, f float64) string {
	switch vt.N(t, 0, 5, "floatText") {
	case 0:
		return strconv.FormatFloat(f, 'e', -1, 64)
	case 1:
		return strings.Replace(strconv.FormatFloat(f, 'e', -1, 64), "e", "E", 1)
	case 2:
		s := strconv.FormatFloat(f, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += "."
		}
		return s + strings.Repeat("0", vt.N(t, 1, 3, "zeros"))
	case 3:
		return strconv.FormatFloat(f, 'f', -1, 64)
	case 4:
		s := strconv.FormatFloat(f, 'f', -1, 64)
		if a := math.Abs(f); a > 1e-6 && a < 1e15 {
			return s + vt.One(t, "exp", "e0", "E+0", "e-0", "e00")
		}
		return s
	default:
		return strconv.FormatFloat(f, 'g', -1, 64)
	}
}

// StringText writes a string literal with a random mix of escapes.
func StringText(t *rapid.T, s string) string {
	mode := vt.N(t, 0, 3, "escMode") // 0 minimal, 1 everything \u, 2 short escapes, 3 mixed
	var b strings.Builder
	b.Grow(len(s) + 2)
	b.WriteByte('"')
	i := 0
	for _, r := range s {
		m := mode
		if mode == 3 {
			if i < 24 {
				m = vt.N(t, 0, 2, "esc")
			} else {
				m = i % 3
			}
			i++
		}
		must := r < 0x20 || r == '"' || r == '\\'
		if !must && m == 0 {
			b.WriteRune(r)
			continue
		}
		if m == 2 || m == 0 {
			if j := strings.IndexRune("\"\\/\b\f\n\r\t", r); j >= 0 {
				b.WriteByte('\\')
				b.WriteByte(`"\/bfnrt`[j])
				continue
			}
			if !must {
				b.WriteRune(r)
				continue
			}
		}
		format := `\u%04x`
		if i%2 == 1 {
			format = `\u%04X`
		}
		if r > 0xffff {
			hi, lo := utf16.EncodeRune(r)
			fmt.Fprintf(&b, format+format, hi, lo)
		} else {
			fmt.Fprintf(&b, format, r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

var wsRuns = []string{"", "", "", " ", "\n", "\t", "\r\n", "  ", " \n\t "}

// Join puts tokens together with random whitespace.
func Join(t *rapid.T, toks []string, bigWS int, sep bool) []byte {
	var b strings.Builder
	style := vt.N(t, 0, 3, "wsStyle")
	big := -1
	if bigWS > 0 {
		big = vt.N(t, 0, len(toks), "bigWSAt")
	}
	for i := 0; i <= len(toks); i++ {
		if i == big {
			b.WriteString(strings.Repeat(vt.One(t, "wsFill", " ", "\n", "\t"), bigWS))
		}
		switch {
		case style == 0:
		case style == 1:
			b.WriteString(" ")
		case i < 30:
			b.WriteString(wsRuns[vt.N(t, 0, len(wsRuns)-1, "ws")])
		default:
			b.WriteString(wsRuns[i%len(wsRuns)])
		}
		if sep && i > 0 {
			b.WriteString(" ")
		}
		if i < len(toks) {
			b.WriteString(toks[i])
		}
	}
	return []byte(b.String())
}
