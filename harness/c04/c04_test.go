package c04

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/big"
	"testing"

	"github.com/qri-io/dataset/dsio"
	"verif/cx"
	"verif/dx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = generated document rendered by an independent CBOR encoder with random head widths, definite or indefinite containers, chunked strings and float widths, delivered in random chunks; non-trivial = more than 12 bytes; distinct by bytes")
}

func TestC04(t *testing.T) {
	vt.Check(t, "any", 90000, 2000000, func(c *vt.C) { any_(c, vt.ValOpts{Depth: 3, Bytes: true, Str: vt.StrOpts{Big: 9000}}, 8) })
	vt.Check(t, "big", 1200, 20000, func(c *vt.C) { any_(c, vt.ValOpts{Depth: 1, Bytes: true, Str: vt.StrOpts{Big: 300000}}, 4) })
	vt.Check(t, "floats", 6000, 60000, floats)
	vt.Check(t, "malformed", 20000, 300000, malformed)
	vt.Check(t, "mutated", 40000, 900000, mutated)
	vt.Check(t, "huge", 3000, 40000, huge)
	vt.Check(t, "many", 300, 3000, many)
	vt.Check(t, "halves", 6, 16, halves)
	vt.Check(t, "large", 300, 4000, large)
}

// many: however many containers a document has, only how deep they nest is limited.
func many(c *vt.C) {
	n := vt.N(c.T, 9990, 12000, "containers")
	unit := [][]byte{{0x80}, {0xa0}, {0x9f, 0xff}, {0xbf, 0xff}, {0x81, 0x80}, {0xa1, 0x61, 'a', 0x9f, 0x01, 0xff}}[vt.N(c.T, 0, 5, "unit")]
	inner := vt.Bool(c.T, "inner")
	data := []byte{0x9f}
	if inner {
		data = append(data, 0x9f)
	}
	data = append(data, bytes.Repeat(unit, n)...)
	if inner {
		data = append(data, 0xff)
	}
	data = append(data, 0xff)
	got, err := read(c, "array", data)
	if err != nil {
		c.Fatalf("%d times %x, inner %v: %v", n, unit, inner, err)
	}
	want := n
	if inner {
		want = 1
	}
	if len(got) != want {
		c.Fatalf("%d times %x, inner %v: %d entries, want %d", n, unit, inner, len(got), want)
	}
	c.NonTrivial(n, unit, inner)
	c.Sample("%d times %x, inner %v", n, unit, inner)
}

// render writes a document of ents.
func render(c *vt.C, keyed bool, ents []dsio.Entry, tags bool) (string, []byte) {
	e := &cx.Enc{T: c.T, Tags: tags}
	tlt, maj := "array", byte(4)
	if keyed {
		tlt, maj = "object", 5
	}
	in := e.Begin(maj, len(ents))
	for _, x := range ents {
		if keyed {
			e.Text(x.Key)
		}
		e.Value(x.Value)
	}
	e.End(in)
	return tlt, e.B
}

// read reads data to its end and says how it ended.
func read(c *vt.C, tlt string, data []byte) ([]dsio.Entry, error) {
	r, err := dsio.NewEntryReader(dx.Noise(c, dx.St("cbor", tlt, "")), vt.Chunks(c, data))
	if err != nil {
		c.Fatalf("new reader: %v", err)
	}
	defer r.Close()
	var got []dsio.Entry
	for len(got) <= len(data) {
		e, err := r.ReadEntry()
		if err == io.EOF {
			return got, nil
		}
		if err != nil {
			return got, err
		}
		got = append(got, e)
	}
	return got, fmt.Errorf("more entries than bytes")
}

// place puts v somewhere inside x.
func place(c *vt.C, x interface{}, v interface{}) interface{} {
	switch y := x.(type) {
	case []interface{}:
		if len(y) > 0 && vt.Chance(c.T, 2, "inner") {
			i := vt.N(c.T, 0, len(y)-1, "at")
			z := append([]interface{}{}, y...)
			z[i] = place(c, y[i], v)
			return z
		}
	case map[string]interface{}:
		if len(y) > 0 && vt.Chance(c.T, 2, "inner") {
			ks := vt.SortedKeys(y)
			k := ks[vt.N(c.T, 0, len(ks)-1, "at")]
			z := map[string]interface{}{}
			for a, b := range y {
				z[a] = b
			}
			z[k] = place(c, y[k], v)
			return z
		}
	}
	return v
}

// malformed: an item no CBOR document can hold, or with a key that is no text, at any
// place of an otherwise well-formed document makes reading end in an error.
func malformed(c *vt.C) {
	keyed := vt.Bool(c.T, "object")
	ents := dx.Entries(c, keyed, 5, vt.ValOpts{Depth: 3, Bytes: true})
	if len(ents) == 0 {
		return
	}
	var raw []byte
	kind := vt.N(c.T, 0, 6, "kind")
	switch kind {
	case 0: // reserved additional information
		raw = []byte{byte(vt.N(c.T, 0, 7, "maj"))<<5 | byte(vt.N(c.T, 28, 30, "ai"))}
	case 1: // break where a value must be
		raw = [][]byte{{0x81, 0xff}, {0xa1, 0x61, 'k', 0xff}, {0xbf, 0x61, 'k', 0xff, 0xff}, {0xc1, 0xff}, {0xa1, 0xff}, {0x82, 0x01, 0xff}, {0x98, 0x01, 0xff}}[vt.N(c.T, 0, 6, "break")]
	case 2: // a key that is no text
		key := [][]byte{{0x01}, {0x20}, {0x41, 'k'}, {0xf6}, {0xf4}, {0xfb, 0x3f, 0xf0, 0, 0, 0, 0, 0, 0}, {0x80}, {0xa0}, {0xf9, 0x3c, 0x00}}[vt.N(c.T, 0, 8, "key")]
		if vt.Bool(c.T, "indef") {
			raw = append(append([]byte{0xbf}, key...), 0x00, 0xff)
		} else {
			raw = append(append([]byte{0xa1}, key...), 0x00)
		}
	case 3: // a chunk of another kind
		raw = [][]byte{{0x7f, 0x41, 'a', 0xff}, {0x5f, 0x61, 'a', 0xff}, {0x7f, 0x01, 'a', 0xff}, {0x5f, 0x02, 'a', 'b', 0xff}, {0x5f, 0x5f, 0x41, 'a', 0xff, 0xff}, {0x7f, 0x7f, 0xff, 0xff}, {0x7f, 0x61, 'a', 0x81, 0x00, 0xff}, {0x5f, 0xf6, 0xff}, {0x5f, 0x41, 'x', 0x20, 0xff}}[vt.N(c.T, 0, 8, "chunk")]
	case 4: // numbers and tags have no indefinite length
		raw = []byte{[]byte{0x1f, 0x3f, 0xdf}[vt.N(c.T, 0, 2, "indef")], 0x00, 0xff}
	case 5: // more bytes or items than there can be
		raw = append([]byte{[]byte{0x5b, 0x7b, 0x9b, 0xbb}[vt.N(c.T, 0, 3, "maj")]}, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff)
		switch vt.N(c.T, 0, 3, "len") {
		case 0:
			raw[1] = 0x80
		case 1:
			raw[1] = 0x7f
		case 2:
			for i := 2; i < 9; i++ {
				raw[i] = 0
			}
			raw[1] = 0x80
		}
	case 6:
		raw = append([]byte{[]byte{0x5a, 0x7a, 0x9a, 0xba}[vt.N(c.T, 0, 3, "maj")]}, 0x80, 0, 0, byte(vt.N(c.T, 0, 255, "low")))
	}
	at := vt.N(c.T, 0, len(ents)-1, "entry")
	ents[at].Value = place(c, ents[at].Value, cx.Raw(raw))
	tlt, data := render(c, keyed, ents, vt.Chance(c.T, 4, "tags"))
	c.NonTrivial(data)
	c.Labelf("malformed %d", kind)
	c.Sample("%s %x", tlt, data)
	got, err := read(c, tlt, data)
	if err == nil {
		c.Fatalf("malformed document (%x in entry %d) was read as %d entries without an error: %s\ndata %x", raw, at, len(got), vt.Show(got), vt.Trunc(string(data), 300))
	}
	if len(got) > at {
		c.Fatalf("malformed item %x in entry %d, but %d entries were read: %s\ndata %x", raw, at, len(got), vt.Show(got), vt.Trunc(string(data), 300))
	}
	if d := dx.DiffEntries(ents[:len(got)], got, keyed, !keyed, kinds); d != "" {
		c.Fatalf("before the malformed item: %s\ndata %x", d, vt.Trunc(string(data), 300))
	}
}

// mutated: whatever a changed document is, it is read as the values it denotes or, if it
// is no longer one, not at all.
func mutated(c *vt.C) {
	keyed := vt.Bool(c.T, "object")
	tlt, data := render(c, keyed, dx.Entries(c, keyed, 5, vt.ValOpts{Depth: 2, Bytes: true}), vt.Chance(c.T, 4, "tags"))
	data = append([]byte{}, data...)
	for n := vt.N(c.T, 1, 3, "edits"); n > 0 && len(data) > 0; n-- {
		i := vt.N(c.T, 0, len(data)-1, "at")
		if vt.Chance(c.T, 3, "early") && i > 6 {
			i %= 6
		}
		switch vt.N(c.T, 0, 5, "edit") {
		case 0:
			data[i] ^= 1 << uint(vt.N(c.T, 0, 7, "bit"))
		case 1:
			data[i] = byte(vt.N(c.T, 0, 255, "byte"))
		case 2:
			data = append(data[:i], data[i+1:]...)
		case 3:
			data = append(data[:i], append([]byte{byte(vt.N(c.T, 0, 255, "byte"))}, data[i:]...)...)
		case 4:
			data[i] = []byte{0x5f, 0x7f, 0x9f, 0xbf, 0xff, 0x1f, 0x3f, 0xdf, 0xf6, 0x80, 0xa0, 0x60, 0x40, 0x1b, 0x3b, 0x9b, 0xbb}[vt.N(c.T, 0, 16, "special")]
		case 5:
			j := vt.N(c.T, i, len(data)-1, "to")
			data = append(data[:i], data[j:]...)
		}
	}
	if vt.Chance(c.T, 12, "other") {
		keyed = !keyed
		tlt = map[bool]string{true: "object", false: "array"}[keyed]
	}
	if len(data) > 8 {
		c.NonTrivial(data)
	}
	c.Sample("%s %x", tlt, data)
	want, werr := cx.Decode(data)
	got, err := read(c, tlt, data)
	switch werr {
	case cx.ErrUnsupported, cx.ErrTrailing:
		c.Label("not judged")
		return
	case nil:
	default:
		c.Label("malformed")
		if err == nil {
			c.Fatalf("malformed (%v) document was read as %d entries without an error: %s\ndata %x", werr, len(got), vt.Show(got), vt.Trunc(string(data), 300))
		}
		return
	}
	c.Label("well-formed")
	var ents []dsio.Entry
	switch x := want.(type) {
	case []interface{}:
		if keyed {
			ents = nil
			if err == nil {
				c.Fatalf("an array was read as an object: %s\ndata %x", vt.Show(got), data)
			}
			return
		}
		for i, v := range x {
			ents = append(ents, dsio.Entry{Index: i, Value: v})
		}
	case cx.Pairs:
		if !keyed {
			if err == nil {
				c.Fatalf("an object was read as an array: %s\ndata %x", vt.Show(got), data)
			}
			return
		}
		for _, p := range x {
			ents = append(ents, dsio.Entry{Key: p.K, Value: p.V})
		}
	default:
		if data[0]>>5 == 6 { // a tagged document
			return
		}
		if err == nil {
			c.Fatalf("neither an array nor an object, read as %s\ndata %x", vt.Show(got), data)
		}
		return
	}
	if data[0]>>5 == 6 {
		return
	}
	if err != nil {
		c.Fatalf("reading: %v\ndata %x", err, vt.Trunc(string(data), 300))
	}
	if d := dx.DiffEntries(ents, got, keyed, !keyed, kinds); d != "" {
		c.Fatalf("%s\ndata %x", d, vt.Trunc(string(data), 300))
	}
}

// huge: integers beyond the signed 64-bit range are refused or read exactly.
func huge(c *vt.C) {
	arg := uint64(1)<<63 | uint64(vt.N(c.T, 0, math.MaxInt, "low"))
	if vt.Chance(c.T, 3, "edge") {
		arg = []uint64{1 << 63, math.MaxUint64, 1<<63 + 1}[vt.N(c.T, 0, 2, "edge")]
	}
	want := new(big.Int).SetUint64(arg)
	raw := binary.BigEndian.AppendUint64([]byte{0x1b}, arg)
	if vt.Bool(c.T, "negative") {
		raw[0] = 0x3b
		want.Neg(want).Sub(want, big.NewInt(1))
	}
	ents := dx.Entries(c, false, 3, vt.ValOpts{Depth: 1})
	at := vt.N(c.T, 0, len(ents), "entry")
	ents = append(ents[:at], append([]dsio.Entry{{Value: cx.Raw(raw)}}, ents[at:]...)...)
	tlt, data := render(c, false, ents, false)
	c.NonTrivial(data)
	c.Sample("%s %x", tlt, data)
	got, err := read(c, tlt, data)
	if err != nil {
		return
	}
	if len(got) != len(ents) {
		c.Fatalf("%d entries of %d\ndata %x", len(got), len(ents), data)
	}
	var exact bool
	switch g := got[at].Value.(type) {
	case uint64:
		exact = new(big.Int).SetUint64(g).Cmp(want) == 0
	case *big.Int:
		exact = g.Cmp(want) == 0
	case float64:
		f := new(big.Float).SetPrec(200).SetInt(want)
		exact = f.Cmp(big.NewFloat(g)) == 0
	}
	if !exact {
		c.Fatalf("%v was read as %s\ndata %x", want, vt.Show(got[at].Value), data)
	}
}

var kinds = vt.CmpOpts{IntKind: true, FloatKind: true}

func any_(c *vt.C, o vt.ValOpts, max int) {
	keyed := vt.Bool(c.T, "object")
	ents := dx.Entries(c, keyed, max, o)
	if o.Str.Big > 100000 && len(ents) > 0 {
		var v interface{} = vt.BigStr(c.T, o.Str.Big)
		if vt.Bool(c.T, "bigBytes") {
			v = []byte(v.(string))
		}
		ents[vt.N(c.T, 0, len(ents)-1, "bigAt")].Value = v
	}
	tlt, data := render(c, keyed, ents, vt.Chance(c.T, 4, "tags"))
	check(c, tlt, keyed, ents, data)
}

func check(c *vt.C, tlt string, keyed bool, ents []dsio.Entry, data []byte) {
	if len(data) > 12 {
		c.NonTrivial(data)
	}
	c.Label(tlt)
	c.Sample("%s %x", tlt, data)
	// the harness's own decoder agrees with its encoder
	if _, err := cx.Decode(data); err != nil {
		c.Fatalf("vt: generated document is not CBOR: %v", err)
	}
	st := dx.Noise(c, dx.St("cbor", tlt, ""))
	r, err := dsio.NewEntryReader(st, vt.Chunks(c, data))
	if err != nil {
		c.Fatalf("new reader: %v", err)
	}
	// collected first, compared afterwards: values must not change under later reads
	got, err := dx.Drain(r, len(ents)+1)
	if err != nil {
		c.Fatalf("reading: %v\ndata %x", err, vt.Trunc(string(data), 300))
	}
	if err := r.Close(); err != nil {
		c.Fatalf("close: %v", err)
	}
	if d := dx.DiffEntries(ents, got, keyed, !keyed, kinds); d != "" {
		c.Fatalf("%s\ndata %x", d, vt.Trunc(string(data), 300))
	}
}

// floats: every half-precision float is exact, singles too.
func floats(c *vt.C) {
	e := &cx.Enc{T: c.T}
	n := vt.N(c.T, 1, 20, "n")
	var ents []dsio.Entry
	e.B = append(e.B, 0x9f)
	for i := 0; i < n; i++ {
		if vt.Bool(c.T, "half") {
			h := uint16(vt.N(c.T, 0, 1<<16-1, "h"))
			e.B = append(e.B, 0xf9, byte(h>>8), byte(h))
			ents = append(ents, dsio.Entry{Index: i, Value: cx.HalfVal(h)})
		} else {
			f := vt.Float(c.T)
			e.Value(f)
			ents = append(ents, dsio.Entry{Index: i, Value: f})
		}
	}
	e.B = append(e.B, 0xff)
	check(c, "array", false, ents, e.B)
}

// halves: all the half-precision floats there are, and as many singles.
func halves(c *vt.C) {
	first := vt.N(c.T, 0, 1<<16-1, "first")
	top := uint32(vt.N(c.T, 0, 1<<16-1, "single")) << 16
	data := []byte{0x9f}
	var ents []dsio.Entry
	add := func(f float64) { ents = append(ents, dsio.Entry{Index: len(ents), Value: f}) }
	for i := 0; i < 1<<16; i++ {
		h := uint16(first + i)
		data = append(data, 0xf9, byte(h>>8), byte(h))
		add(cx.HalfVal(h))
		b := top | uint32(h)
		data = binary.BigEndian.AppendUint32(append(data, 0xfa), b)
		add(float64(math.Float32frombits(b)))
	}
	data = append(data, 0xff)
	c.NonTrivial(first, top)
	c.Sample("halves from %#x, singles %#x", first, top)
	got, err := read(c, "array", data)
	if err != nil || len(got) != len(ents) {
		c.Fatalf("%d of %d floats: %v", len(got), len(ents), err)
	}
	for i, e := range got {
		f, ok := e.Value.(float64)
		w := ents[i].Value.(float64)
		if !ok || f != w && !(math.IsNaN(f) && math.IsNaN(w)) || math.Signbit(f) != math.Signbit(w) && w == w {
			c.Fatalf("float %x was read as %s, want %v", data[1+i/2*8:1+i/2*8+8], vt.Show(e.Value), w)
		}
	}
}

// large: nested containers and strings of any size, with something after them.
func large(c *vt.C) {
	n := []int{255, 256, 4090, 4096, 8192, 16384, 32768, 65530, 65536}[vt.N(c.T, 0, 8, "size")] + vt.N(c.T, 0, 9, "more")
	var v interface{}
	kind := vt.N(c.T, 0, 4, "kind")
	switch kind {
	case 0:
		l := make([]interface{}, n)
		for i := range l {
			l[i] = int64(i)
		}
		v = l
	case 1:
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m[fmt.Sprint("k", i)] = int64(n - i)
		}
		v = m
	case 2:
		l := make([]interface{}, n/8+1)
		for i := range l {
			l[i] = []interface{}{fmt.Sprint(i), nil, float64(i) + 0.5, map[string]interface{}{"a": []interface{}{true}}}
		}
		v = l
	case 3:
		v = vt.BigStr(c.T, n)
	case 4:
		v = []byte(vt.BigStr(c.T, n))
	}
	for d := vt.N(c.T, 0, 3, "depth"); d > 0; d-- {
		if vt.Bool(c.T, "map") {
			v = map[string]interface{}{"in": v, "zz": int64(d)}
		} else {
			v = []interface{}{int64(d), v, "after"}
		}
	}
	keyed := vt.Bool(c.T, "object")
	ents := []dsio.Entry{{Index: 0, Key: "a", Value: "before"}, {Index: 1, Key: "b", Value: v}, {Index: 2, Key: "c", Value: int64(-7)}}
	tlt, data := render(c, keyed, ents, false)
	c.Labelf("large %d", kind)
	check(c, tlt, keyed, ents, data)
}
