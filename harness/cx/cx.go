// Package cx is a small CBOR (RFC 7049) encoder and decoder, independent of the
// repository and of the library it uses.
package cx

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"

	"pgregory.net/rapid"
	"verif/vt"
)

// Enc renders values, choosing among the encodings CBOR allows.
type Enc struct {
	T     *rapid.T
	Canon bool // smallest heads, definite lengths, float64
	Tags  bool // tag some values
	n     int
	B     []byte
}

func (e *Enc) pick(n int, label string) int {
	if e.Canon {
		return 0
	}
	e.n++
	if e.n > 60 { // keep big documents cheap to draw
		return (e.n * 7919) % n
	}
	return vt.N(e.T, 0, n-1, label)
}

// Head writes a major type and argument in some allowed width.
func (e *Enc) Head(major byte, v uint64) {
	min := 0
	switch {
	case v < 24:
	case v < 1<<8:
		min = 1
	case v < 1<<16:
		min = 2
	case v < 1<<32:
		min = 3
	default:
		min = 4
	}
	w := min
	if e.pick(3, "wide") == 2 {
		w = min + e.pick(5-min, "width")
	}
	m := major << 5
	switch w {
	case 0:
		e.B = append(e.B, m|byte(v))
	case 1:
		e.B = append(e.B, m|24, byte(v))
	case 2:
		e.B = binary.BigEndian.AppendUint16(append(e.B, m|25), uint16(v))
	case 3:
		e.B = binary.BigEndian.AppendUint32(append(e.B, m|26), uint32(v))
	default:
		e.B = binary.BigEndian.AppendUint64(append(e.B, m|27), v)
	}
}

func (e *Enc) str(major byte, s []byte) {
	if e.pick(5, "indefStr") != 4 {
		e.Head(major, uint64(len(s)))
		e.B = append(e.B, s...)
		return
	}
	e.B = append(e.B, major<<5|31)
	for len(s) > 0 {
		n := 1 + e.pick(4, "chunk")
		if len(s) > 64 {
			n = 1 + len(s)/(1+e.pick(5, "chunks"))
		}
		if n > len(s) {
			n = len(s)
		}
		if major == 3 { // chunks of text are whole characters
			for n < len(s) && s[n]&0xc0 == 0x80 {
				n++
			}
		}
		e.Head(major, uint64(n))
		e.B = append(e.B, s[:n]...)
		s = s[n:]
	}
	e.B = append(e.B, 0xff)
}

// Text writes a text string.
func (e *Enc) Text(s string) { e.str(3, []byte(s)) }

// Begin opens an array (major 4) or map (5), telling whether a break must follow.
func (e *Enc) Begin(major byte, n int) bool {
	if e.pick(3, "indef") == 2 {
		e.B = append(e.B, major<<5|31)
		return true
	}
	e.Head(major, uint64(n))
	return false
}

// End closes a container.
func (e *Enc) End(indef bool) {
	if indef {
		e.B = append(e.B, 0xff)
	}
}

// Value writes a value.
func (e *Enc) Value(v interface{}) {
	for e.Tags && e.pick(14, "tag") == 13 {
		e.Head(6, []uint64{0, 1, 5, 24, 32, 258, 55799, 1 << 32, 1<<63 - 1}[e.pick(9, "tagNum")])
	}
	switch x := v.(type) {
	case Raw:
		e.B = append(e.B, x...)
	case nil:
		e.B = append(e.B, 0xf6)
	case bool:
		if x {
			e.B = append(e.B, 0xf5)
		} else {
			e.B = append(e.B, 0xf4)
		}
	case int64:
		if x >= 0 {
			e.Head(0, uint64(x))
		} else {
			e.Head(1, uint64(-1-x))
		}
	case float64:
		k := e.pick(3, "fw")
		if h, ok := Half(x); ok && k >= 1 {
			e.B = binary.BigEndian.AppendUint16(append(e.B, 0xf9), h)
		} else if f := float32(x); k == 2 && float64(f) == x {
			e.B = binary.BigEndian.AppendUint32(append(e.B, 0xfa), math.Float32bits(f))
		} else {
			e.B = binary.BigEndian.AppendUint64(append(e.B, 0xfb), math.Float64bits(x))
		}
	case string:
		e.Text(x)
	case []byte:
		e.str(2, x)
	case []interface{}:
		in := e.Begin(4, len(x))
		for _, y := range x {
			e.Value(y)
		}
		e.End(in)
	case map[string]interface{}:
		in := e.Begin(5, len(x))
		for _, k := range vt.SortedKeys(x) {
			e.Text(k)
			e.Value(x[k])
		}
		e.End(in)
	default:
		panic(fmt.Sprintf("cx: %T", v))
	}
}

// HalfVal gives the value of a half-precision float, by table of its definition.
func HalfVal(h uint16) float64 {
	s := 1.0
	if h>>15 == 1 {
		s = -1
	}
	e, m := int(h>>10)&31, float64(h&1023)
	switch e {
	case 0:
		return s * m * math.Pow(2, -24)
	case 31:
		if m == 0 {
			return s * math.Inf(1)
		}
		return math.NaN()
	}
	return s * (1 + m/1024) * math.Pow(2, float64(e-15))
}

var halves map[uint64]uint16

// Half gives the half-precision form of f if it has one.
func Half(f float64) (uint16, bool) {
	if halves == nil {
		halves = map[uint64]uint16{}
		for i := 0; i < 1<<16; i++ {
			if v := HalfVal(uint16(i)); !math.IsNaN(v) && !math.IsInf(v, 0) {
				halves[math.Float64bits(v)] = uint16(i)
			}
		}
	}
	h, ok := halves[math.Float64bits(f)]
	return h, ok
}

// KV is a map member in document order.
type KV struct {
	K string
	V interface{}
}

// Pairs is a map in document order.
type Pairs []KV

// ErrUnsupported: well-formed so far, but outside what the checks judge (numbers beyond
// the signed 64-bit range, simple values other than true, false and null).
var ErrUnsupported = errors.New("cx: unsupported")

// ErrTrailing: something follows a well-formed document.
var ErrTrailing = errors.New("cx: trailing bytes")

// Raw is written as it is.
type Raw []byte

type dec struct {
	b []byte
	i int
}

// Decode decodes one document; the top-level map, if any, comes as Pairs.
func Decode(b []byte) (interface{}, error) {
	d := &dec{b: b}
	v, err := d.value(true)
	if err != nil {
		return nil, err
	}
	if d.i != len(b) {
		return nil, ErrTrailing
	}
	return v, nil
}

func (d *dec) take(n int) ([]byte, error) {
	if n < 0 || d.i+n > len(d.b) {
		return nil, fmt.Errorf("cx: short")
	}
	s := d.b[d.i : d.i+n]
	d.i += n
	return s, nil
}

// brk takes a break if there is one.
func (d *dec) brk() bool {
	if d.i < len(d.b) && d.b[d.i] == 0xff {
		d.i++
		return true
	}
	return false
}

func (d *dec) value(top bool) (interface{}, error) {
	h, err := d.take(1)
	if err != nil {
		return nil, err
	}
	maj, ai := h[0]>>5, h[0]&31
	var arg uint64
	indef := false
	switch {
	case ai < 24:
		arg = uint64(ai)
	case ai < 28:
		s, err := d.take(1 << (ai - 24))
		if err != nil {
			return nil, err
		}
		for _, x := range s {
			arg = arg<<8 | uint64(x)
		}
	case ai == 31:
		indef = true
	default:
		return nil, fmt.Errorf("cx: reserved")
	}
	if indef && (maj < 2 || maj == 6) {
		return nil, fmt.Errorf("cx: indefinite number or tag")
	}
	switch maj {
	case 0:
		if arg > math.MaxInt64 {
			return nil, ErrUnsupported
		}
		return int64(arg), nil
	case 1:
		if arg > math.MaxInt64 {
			return nil, ErrUnsupported
		}
		return -1 - int64(arg), nil
	case 2, 3:
		var out []byte
		if indef {
			for {
				if d.i >= len(d.b) {
					return nil, fmt.Errorf("cx: short")
				}
				if d.b[d.i] == 0xff {
					d.i++
					break
				}
				if d.b[d.i]>>5 != maj || d.b[d.i]&31 == 31 {
					return nil, fmt.Errorf("cx: bad chunk")
				}
				v, err := d.value(false)
				if err != nil {
					return nil, err
				}
				switch x := v.(type) {
				case string:
					out = append(out, x...)
				case []byte:
					out = append(out, x...)
				default:
					return nil, fmt.Errorf("cx: bad chunk")
				}
			}
		} else {
			if arg > uint64(len(d.b)) {
				return nil, fmt.Errorf("cx: short")
			}
			if out, err = d.take(int(arg)); err != nil {
				return nil, err
			}
		}
		if maj == 3 {
			return string(out), nil
		}
		return append([]byte{}, out...), nil
	case 4:
		out := []interface{}{}
		for n := uint64(0); indef || n < arg; n++ {
			if indef && d.brk() {
				break
			}
			v, err := d.value(false)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
		return out, nil
	case 5:
		var ps Pairs
		for n := uint64(0); indef || n < arg; n++ {
			if indef && d.brk() {
				break
			}
			tagged := d.i < len(d.b) && d.b[d.i]>>5 == 6
			k, err := d.value(false)
			if err != nil {
				return nil, err
			}
			if tagged {
				return nil, ErrUnsupported
			}
			ks, ok := k.(string)
			if !ok {
				return nil, fmt.Errorf("cx: key %T", k)
			}
			v, err := d.value(false)
			if err != nil {
				return nil, err
			}
			ps = append(ps, KV{ks, v})
		}
		if top {
			return ps, nil
		}
		m := map[string]interface{}{}
		for _, p := range ps {
			m[p.K] = p.V
		}
		return m, nil
	case 6:
		if arg > math.MaxInt64 {
			return nil, ErrUnsupported
		}
		return d.value(false)
	}
	switch h[0] {
	case 0xf4:
		return false, nil
	case 0xf5:
		return true, nil
	case 0xf6:
		return nil, nil
	case 0xf9:
		return HalfVal(uint16(arg)), nil
	case 0xfa:
		return float64(math.Float32frombits(uint32(arg))), nil
	case 0xfb:
		return math.Float64frombits(arg), nil
	case 0xff:
		return nil, fmt.Errorf("cx: break")
	}
	return nil, ErrUnsupported
}
