package c13

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"verif/dx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a history of writes, some of which the writer must refuse (empty or duplicate key, unrepresentable value, entry that is no row), then close and read back; non-trivial = at least one refused and one accepted entry; distinct by history and format")
}

func TestC13(t *testing.T) {
	for _, f := range []string{"json", "jsonpretty", "cbor", "ndjson", "csv"} {
		f := f
		vt.Check(t, f, 12000, 240000, func(c *vt.C) { history(c, f) })
	}
	vt.Check(t, "xlsx", 150, 3000, func(c *vt.C) { history(c, "xlsx") })
	vt.Check(t, "buffer", 8000, 160000, func(c *vt.C) { history(c, "buffer") })
	vt.Check(t, "many", 400, 6000, many)
	vt.Check(t, "cbor_unencodable", 3000, 60000, cborClose)
}

type badMarshal struct{}

func (badMarshal) MarshalJSON() ([]byte, error) { return nil, errors.New("no") }

// bad draws a value no JSON text can represent.
func bad(c *vt.C) (interface{}, string) {
	k := vt.One(c.T, "bad", "func", "chan", "nan", "inf", "nested nan", "nested func", "complex", "marshaler")
	switch k {
	case "func":
		return func() {}, k
	case "chan":
		return make(chan int), k
	case "nan":
		return math.NaN(), k
	case "inf":
		return math.Inf(-1), k
	case "nested nan":
		return dx.Arr{int64(1), dx.Obj{"a": math.NaN()}}, k
	case "nested func":
		return dx.Obj{"a": dx.Arr{"x", func() {}}}, k
	case "complex":
		return complex(1, 2), k
	}
	return badMarshal{}, k
}

// badCell draws a value a CSV or XLSX cell cannot hold.
func badCell(c *vt.C) (interface{}, string) {
	k := vt.One(c.T, "badCell", "func", "chan", "nested nan", "nested func", "complex", "struct")
	switch k {
	case "func":
		return func() {}, k
	case "chan":
		return make(chan int), k
	case "nested nan":
		return dx.Arr{math.NaN()}, k
	case "nested func":
		return dx.Obj{"a": func() {}}, k
	case "complex":
		return complex(1, 2), k
	}
	return struct{ A int }{1}, k
}

// badText draws a text that an XLSX cell cannot hold.
func badText(c *vt.C) (interface{}, string) {
	if vt.Bool(c.T, "long") {
		unit := vt.One(c.T, "unit", "x", "é", "字", "a🙂")
		return strings.Repeat(unit, 32767/len(unit)+vt.N(c.T, 1, 300, "over")), "long text"
	}
	return vt.One(c.T, "before", "", "a", "é") + vt.One(c.T, "control", "\x00", "\x01", "\x0b", "\x1f", "\uffff", "\xff") + vt.One(c.T, "after", "", "b", "é"), "control text"
}

func history(c *vt.C, format string) {
	st := &dataset.Structure{Format: format}
	pretty := ""
	buffer := format == "buffer"
	if buffer {
		format = vt.One(c.T, "bufFormat", "json", "cbor", "ndjson", "csv")
		st.Format = format
	}
	if format == "jsonpretty" {
		st.Format, pretty = "json", vt.One(c.T, "indent", " ", "\t")
	}
	keyed := false
	topts := dx.TableOpts{Str: vt.StrOpts{NoCR: true, XML: true, Max: 200}, MaxCols: 3, MaxRows: 1, Depth: 1}
	var tb *dx.Table
	switch st.Format {
	case "csv", "xlsx":
		tb = dx.GenTable(c, topts)
		st.Schema = tb.Schema()
	default:
		keyed = st.Format != "ndjson" && vt.Bool(c.T, "keyed")
		st.Schema = dx.Obj{"type": "array"}
		if keyed {
			st.Schema["type"] = "object"
		}
	}
	if st.Format != "xlsx" && !buffer {
		st.Compression = dx.Comp(c.T)
	}

	out := &bytes.Buffer{}
	var w dsio.EntryWriter
	var eb *dsio.EntryBuffer
	var err error
	switch {
	case pretty != "":
		w, err = dsio.NewJSONPrettyWriter(st, out, pretty)
	case buffer:
		eb, err = dsio.NewEntryBuffer(st)
		w = eb
	default:
		w, err = dsio.NewEntryWriter(st, out)
	}
	if err != nil {
		c.Fatalf("new writer: %v", err)
	}

	var want []dsio.Entry
	var hist []string
	keys := map[string]bool{}
	var names []string
	refused := 0
	pending := "" // key whose value was refused
	o := vt.ValOpts{Depth: 2, Str: vt.StrOpts{}}
	n := vt.N(c.T, 1, 8, "ops")
	for i := 0; i < n; i++ {
		op := vt.N(c.T, 0, 9, "op")
		var e dsio.Entry
		what, ok := "good", false
		var wantRow dx.Arr
		if tb != nil {
			switch {
			case op < 5:
				var r dx.Arr
				r, wantRow = dx.GenRow(c, tb, topts)
				e = dsio.Entry{Index: len(want), Value: r}
				ok = true
			case op < 7:
				r, _ := dx.GenRow(c, tb, topts)
				bv, k := badCell(c)
				if st.Format == "xlsx" && vt.Bool(c.T, "badText") {
					bv, k = badText(c)
				}
				r[vt.N(c.T, 0, len(r)-1, "badAt")] = bv
				e, what = dsio.Entry{Value: r}, k
			default:
				e.Value = dx.Obj{"a": int64(1)}
				switch vt.N(c.T, 0, 2, "noRow") {
				case 1:
					e.Value = "text"
				case 2:
					e.Value = nil
				}
				what = "no row"
			}
		} else {
			if keyed {
				e.Key = vt.Str(c.T, vt.StrOpts{NonEmpty: true})
				if vt.Chance(c.T, 8, "longKey") {
					e.Key += strings.Repeat("k", vt.N(c.T, 30, 400, "keyLen"))
				}
				if pending != "" && vt.Bool(c.T, "retry") {
					e.Key = pending
				}
			} else {
				e.Index = len(want)
			}
			switch {
			case op < 5 || (!keyed && op >= 8):
				e.Value = vt.Value(c.T, o)
				ok = true
			case op < 8:
				if st.Format == "cbor" { // CBOR reports these at close, see cborClose
					e.Value, ok = vt.Value(c.T, o), true
					break
				}
				e.Value, what = bad(c)
			case op == 8:
				e.Key, e.Value, what = "", vt.Value(c.T, o), "empty key"
			default:
				if len(names) == 0 {
					continue
				}
				e.Key, e.Value, what = names[vt.N(c.T, 0, len(names)-1, "dup")], vt.Value(c.T, o), "duplicate key"
			}
			if keyed && keys[e.Key] && ok {
				ok, what = false, "duplicate key"
			}
		}
		err := w.WriteEntry(e)
		hist = append(hist, fmt.Sprintf("%s %q", what, vt.Trunc(e.Key, 20)))
		if ok {
			if err != nil {
				c.Fatalf("%v: acceptable entry refused: %v", hist, err)
			}
			wv := vt.Clone(e.Value)
			if wantRow != nil {
				wv = wantRow
			}
			want = append(want, dsio.Entry{Index: e.Index, Key: e.Key, Value: wv})
			keys[e.Key] = true
			names = append(names, e.Key)
			continue
		}
		if err == nil {
			c.Fatalf("%s: %v: last entry accepted: %s", st.Format, hist, vt.Show(e.Value))
		}
		refused++
		c.Labelf("refused: %s %s", st.Format, what)
		if keyed && what != "empty key" && what != "duplicate key" && !keys[e.Key] {
			pending = e.Key
		}
	}
	if err := w.Close(); err != nil {
		c.Fatalf("%s: %v: close: %v", st.Format, hist, err)
	}
	if refused > 0 && len(want) > 0 {
		c.NonTrivial(format, keyed, fmt.Sprint(hist), fmt.Sprint(want))
	}
	c.Sample("%s keyed=%v: %v", format, keyed, hist)
	data := out.Bytes()
	if eb != nil {
		data = eb.Bytes()
	}
	if st.Format == "json" && st.Compression == "" && !json.Valid(data) {
		c.Fatalf("%v: body is not JSON: %q", hist, vt.Trunc(string(data), 200))
	}
	got, err := dx.Read(st, bytes.NewReader(data), len(want)+3)
	if err != nil {
		c.Fatalf("%s: %v: reading back %q: %v", st.Format, hist, vt.Trunc(string(data), 200), err)
	}
	if keyed && st.Format == "cbor" {
		want = dx.ByKey(want)
		got = dx.ByKey(got)
	}
	if d := dx.DiffEntries(want, got, keyed, !keyed && st.Format != "csv", vt.CmpOpts{}); d != "" {
		c.Fatalf("%s: %v: accepted entries not what is in %q: %s", st.Format, hist, vt.Trunc(string(data), 200), d)
	}
}

// cborClose: a value CBOR cannot represent is reported by the write or by close.
func cborClose(c *vt.C) {
	keyed := vt.Bool(c.T, "keyed")
	st := dx.Noise(c, dx.St("cbor", "array", ""))
	if keyed {
		st = dx.St("cbor", "object", "")
	}
	ents := dx.Entries(c, keyed, 4, vt.ValOpts{Depth: 1})
	at := vt.N(c.T, 0, len(ents), "at")
	var bv interface{}
	switch vt.N(c.T, 0, 3, "badKind") {
	case 0:
		bv = complex64(3)
	case 1:
		bv = []complex128{1}
	default:
		bv = complex(1, 2)
	}
	if vt.Bool(c.T, "nested") {
		bv = dx.Arr{int64(1), bv}
	}
	ents = append(ents[:at:at], append([]dsio.Entry{{Key: "bad value", Value: bv}}, ents[at:]...)...)
	out := &bytes.Buffer{}
	w, err := dsio.NewEntryWriter(st, out)
	if err != nil {
		c.Fatalf("%v", err)
	}
	var first error
	var accepted []dsio.Entry
	for i, e := range ents {
		err := w.WriteEntry(e)
		if err == nil {
			accepted = append(accepted, e)
			continue
		}
		if i != at {
			c.Fatalf("entry %d refused: %v", i, err)
		}
		first = err
	}
	c.NoPanic("close", func() {
		err := w.Close()
		if first != nil && err != nil {
			c.Fatalf("entry refused (%v), but closing fails too: %v", first, err)
		}
		if first == nil {
			first = err
		}
	})
	if len(accepted) < len(ents) { // refused when written
		got, err := dx.Read(st, bytes.NewReader(out.Bytes()), len(ents)+3)
		if err != nil {
			c.Fatalf("reading back: %v", err)
		}
		if keyed {
			accepted, got = dx.ByKey(accepted), dx.ByKey(got)
		}
		if d := dx.DiffEntries(accepted, got, keyed, false, vt.CmpOpts{}); d != "" {
			c.Fatalf("accepted entries are not what is read back: %s", d)
		}
	}
	if len(ents) > 1 {
		c.NonTrivial(keyed, at, len(ents))
	}
	if first == nil {
		c.Fatalf("a %T was written as CBOR without error", bv)
	}
}

// many writes a long body with refused entries in between.
func many(c *vt.C) {
	format := vt.One(c.T, "format", "json", "json", "cbor", "ndjson", "csv")
	keyed := (format == "json" || format == "cbor") && !vt.Chance(c.T, 4, "array")
	st := dx.St(format, "array", dx.Comp(c.T))
	if keyed {
		st.Schema["type"] = "object"
	}
	ents := dx.Many(c, keyed, 40000)
	if format == "csv" {
		st.Schema = dx.Obj{"type": "array", "items": dx.Obj{"type": "array", "items": dx.Arr{dx.Obj{"title": "a", "type": "integer"}, dx.Obj{"title": "b", "type": "string"}}}}
		for i := range ents {
			ents[i].Value = dx.Arr{int64(i), "x"}
		}
	}
	out := &bytes.Buffer{}
	w, err := dsio.NewEntryWriter(st, out)
	if err != nil {
		c.Fatalf("%v", err)
	}
	// positions after which something unacceptable is written
	bads := map[int]int{len(ents) - 1: vt.N(c.T, 0, len(ents)-1, "lastOf")}
	for i := vt.N(c.T, 1, 6, "bads"); i > 0; i-- {
		at := vt.N(c.T, 0, len(ents)-1, "badAt")
		bads[at] = vt.N(c.T, 0, at, "badOf")
	}
	refused := 0
	for i, e := range ents {
		if err := w.WriteEntry(e); err != nil {
			c.Fatalf("entry %d of %d refused: %v", i, len(ents), err)
		}
		of, ok := bads[i]
		if !ok {
			continue
		}
		var x dsio.Entry
		switch {
		case keyed:
			x = dsio.Entry{Key: ents[of].Key, Value: "again"}
		case format == "csv":
			x = dsio.Entry{Value: "no row"}
		case format == "cbor":
			continue
		default:
			x = dsio.Entry{Value: func() {}}
		}
		if err := w.WriteEntry(x); err == nil {
			c.Fatalf("%s keyed=%v: after %d entries, %q (written as entry %d) is accepted again", format, keyed, i+1, x.Key, of)
		}
		refused++
	}
	if err := w.Close(); err != nil {
		c.Fatalf("close: %v", err)
	}
	got, err := dx.Read(st, bytes.NewReader(out.Bytes()), len(ents)+9)
	if err != nil {
		c.Fatalf("reading back: %v", err)
	}
	if keyed && format == "cbor" {
		ents, got = dx.ByKey(ents), dx.ByKey(got)
	}
	if d := dx.DiffEntries(ents, got, keyed, !keyed && format != "csv", vt.CmpOpts{}); d != "" {
		c.Fatalf("%s: %s", format, vt.Trunc(d, 300))
	}
	c.Labelf("many %s keyed=%v", format, keyed)
	c.NonTrivial(format, keyed, len(ents), fmt.Sprint(bads))
	c.Sample("%d %s entries keyed=%v, refused after %v", len(ents), format, keyed, bads)
}
