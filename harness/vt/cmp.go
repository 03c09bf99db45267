package vt

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
)

func num(v interface{}) (*big.Float, bool, bool) { // value, isNumber, isInteger kind
	mk := func(i int64) *big.Float { return new(big.Float).SetPrec(200).SetInt64(i) }
	switch x := v.(type) {
	case int:
		return mk(int64(x)), true, true
	case int8:
		return mk(int64(x)), true, true
	case int16:
		return mk(int64(x)), true, true
	case int32:
		return mk(int64(x)), true, true
	case int64:
		return mk(x), true, true
	case uint:
		return new(big.Float).SetPrec(200).SetUint64(uint64(x)), true, true
	case uint8:
		return mk(int64(x)), true, true
	case uint16:
		return mk(int64(x)), true, true
	case uint32:
		return mk(int64(x)), true, true
	case uint64:
		return new(big.Float).SetPrec(200).SetUint64(x), true, true
	case float64:
		if math.IsNaN(x) {
			return nil, true, false
		}
		return new(big.Float).SetPrec(200).SetFloat64(x), true, false
	case float32:
		if x != x {
			return nil, true, false
		}
		return new(big.Float).SetPrec(200).SetFloat64(float64(x)), true, false
	}
	return nil, false, false
}

// CmpOpts tunes Diff.
type CmpOpts struct {
	// IntKind: a value written as an integer must come back with an integer type.
	IntKind bool
	// FloatKind: a value written as a float must come back with a float type.
	FloatKind bool
}

// Diff compares what was written with what came back; "" means equal.
func Diff(want, got interface{}, o CmpOpts) string { return diff("$", want, got, o) }

func diff(p string, want, got interface{}, o CmpOpts) string {
	if wn, ok, wint := num(want); ok {
		gn, ok, gint := num(got)
		if !ok {
			return fmt.Sprintf("%s: want %T %v, got %s", p, want, want, show(got))
		}
		if wn == nil || gn == nil {
			if wn == nil && gn == nil {
				return ""
			}
			return fmt.Sprintf("%s: want %v, got %v", p, want, got)
		}
		if !wint && gint {
			// a float between 2^53 and 2^63 has a shortest decimal notation that is
			// integral and need not be its exact value
			f, _ := gn.Float64()
			gn = new(big.Float).SetPrec(200).SetFloat64(f)
		}
		if wn.Cmp(gn) != 0 {
			return fmt.Sprintf("%s: want %T %v, got %T %v", p, want, want, got, got)
		}
		if o.IntKind && wint && !gint {
			return fmt.Sprintf("%s: integer %v came back as %T", p, want, got)
		}
		if o.FloatKind && !wint && gint {
			return fmt.Sprintf("%s: float %v came back as %T", p, want, got)
		}
		return ""
	}
	switch w := want.(type) {
	case nil:
		if got != nil {
			return fmt.Sprintf("%s: want null, got %s", p, show(got))
		}
	case bool:
		if g, ok := got.(bool); !ok || g != w {
			return fmt.Sprintf("%s: want %v, got %s", p, w, show(got))
		}
	case string:
		if g, ok := got.(string); !ok || g != w {
			return fmt.Sprintf("%s: want %s, got %s", p, show(w), show(got))
		}
	case []byte:
		g, ok := got.([]byte)
		if !ok || !bytes.Equal(g, w) {
			return fmt.Sprintf("%s: want %s, got %s", p, show(w), show(got))
		}
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok {
			return fmt.Sprintf("%s: want array, got %s", p, show(got))
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s: want %d elements, got %d: %s vs %s", p, len(w), len(g), show(w), show(g))
		}
		for i := range w {
			if d := diff(fmt.Sprintf("%s[%d]", p, i), w[i], g[i], o); d != "" {
				return d
			}
		}
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("%s: want object, got %s", p, show(got))
		}
		for k := range w {
			e, ok := g[k]
			if !ok {
				return fmt.Sprintf("%s: key %q missing", p, Trunc(k, 60))
			}
			if d := diff(fmt.Sprintf("%s[%q]", p, Trunc(k, 60)), w[k], e, o); d != "" {
				return d
			}
		}
		for k := range g {
			if _, ok := w[k]; !ok {
				return fmt.Sprintf("%s: unexpected key %q", p, Trunc(k, 60))
			}
		}
	default:
		return fmt.Sprintf("%s: unsupported want type %T", p, want)
	}
	return ""
}

func show(v interface{}) string { return Trunc(fmt.Sprintf("%T(%#v)", v, v), 200) }

// Show writes a value out, shortened.
func Show(v interface{}) string { return show(v) }
