package c01

import (
	"bytes"
	"encoding/json"
	"io"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/dsio"
	"verif/dx"
	"verif/jx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = generated entry sequence x top-level type x compact/pretty x compression x read chunking; non-trivial = at least two entries or one entry with a nested or >23 byte value; distinct by the bytes written")
}

func TestC01(t *testing.T) {
	vt.Check(t, "roundtrip", 48000, 1500000, func(c *vt.C) { roundTrip(c, vt.ValOpts{Depth: 3, Str: vt.StrOpts{Big: 9000}}, 12) })
	vt.Check(t, "many", 300, 4000, func(c *vt.C) { roundTrip(c, vt.ValOpts{}, -110000) })
	vt.Check(t, "big", 1500, 30000, func(c *vt.C) { roundTrip(c, vt.ValOpts{Depth: 1, Str: vt.StrOpts{Big: 600000}}, 6) })
}

// big values in between, so block and buffer boundaries fall everywhere
func roundTrip(c *vt.C, o vt.ValOpts, max int) {
	keyed := vt.Bool(c.T, "object")
	tlt := "array"
	if keyed {
		tlt = "object"
	}
	st := dx.Noise(c, dx.St("json", tlt, dx.Comp(c.T)))
	indent := ""
	if vt.Chance(c.T, 3, "pretty") {
		indent = vt.One(c.T, "indent", "  ", " ", "\t", "    ")
	}
	ents := dx.Entries(c, keyed, max, o)
	if o.Str.Big > 100000 && len(ents) > 0 {
		i := vt.N(c.T, 0, len(ents)-1, "bigAt")
		ents[i].Value = vt.BigStr(c.T, o.Str.Big)
		if keyed && vt.Chance(c.T, 4, "bigKey") {
			ents[i].Key, ents[i].Value = vt.BigStr(c.T, o.Str.Big)+ents[i].Key, int64(i)
		} else if vt.Bool(c.T, "bigNested") {
			ents[i].Value = []interface{}{ents[i].Value, vt.Scalar(c.T, o)}
		}
	}

	snapshot := make([]interface{}, len(ents))
	for i := range ents {
		snapshot[i] = vt.Clone(ents[i].Value)
	}
	buf := &bytes.Buffer{}
	var w dsio.EntryWriter
	var err error
	if indent != "" {
		w, err = dsio.NewJSONPrettyWriter(st, buf, indent)
	} else {
		w, err = dsio.NewEntryWriter(st, buf)
	}
	if err != nil {
		c.Fatalf("new writer: %v", err)
	}
	if w.Structure() != st {
		c.Fatalf("writer structure is not the one given")
	}
	for i, e := range ents {
		if err := w.WriteEntry(e); err != nil {
			c.Fatalf("writing entry %d (%s): %v", i, vt.Show(e.Value), err)
		}
	}
	if err := w.Close(); err != nil {
		c.Fatalf("close: %v", err)
	}
	for i := range ents {
		if d := vt.Diff(snapshot[i], ents[i].Value, vt.CmpOpts{IntKind: true, FloatKind: true}); d != "" {
			c.Fatalf("writing changed the caller's entry %d: %s", i, d)
		}
	}
	data := buf.Bytes()
	if len(ents) >= 2 || (len(ents) == 1 && len(data) > 30) {
		c.NonTrivial(data)
	}
	c.Labelf("%s comp=%q pretty=%v", tlt, st.Compression, indent != "")
	if len(data) > 4096 {
		c.Label("body>4096")
	}
	if len(data) > 262144 {
		c.Label("body>262144")
	}

	// what was written is one JSON document denoting the entries
	plain := data
	if st.Compression != "" {
		r, err := compression.Decompressor(st.Compression, bytes.NewReader(data))
		if err != nil {
			c.Fatalf("decompressor: %v", err)
		}
		if plain, err = io.ReadAll(r); err != nil {
			c.Fatalf("decompressing: %v", err)
		}
		r.Close()
	}
	c.Sample("%s indent=%q %s", tlt, indent, plain)
	if !json.Valid(plain) {
		c.Fatalf("not well-formed JSON: %s", vt.Trunc(string(plain), 400))
	}
	top, err := jx.Parse(plain)
	if err != nil {
		c.Fatalf("independent parser: %v in %s", err, vt.Trunc(string(plain), 400))
	}
	if top.Object != keyed {
		c.Fatalf("wrong top level: %s", vt.Trunc(string(plain), 200))
	}
	if d := dx.DiffEntries(ents, top.Entries, keyed, false, vt.CmpOpts{}); d != "" {
		c.Fatalf("independent parser sees other data: %s in %s", d, vt.Trunc(string(plain), 400))
	}

	// and the repository reads it back
	got, err := readBack(c, st, data, len(plain))
	if err != nil {
		c.Fatalf("reading back: %v\nbody: %s", err, vt.Trunc(string(plain), 400))
	}
	if d := dx.DiffEntries(ents, got, keyed, !keyed, vt.CmpOpts{IntKind: true}); d != "" {
		c.Fatalf("round trip: %s\nbody: %s", d, vt.Trunc(string(plain), 400))
	}
}

func readBack(c *vt.C, st *dataset.Structure, data []byte, plain int) ([]dsio.Entry, error) {
	src := vt.Chunks(c, data)
	var r dsio.EntryReader
	var err error
	if vt.Chance(c.T, 3, "sized") {
		r, err = dsio.NewJSONReaderSize(st, src, bufSize(c, plain))
	} else {
		r, err = dsio.NewEntryReader(st, src)
	}
	if err != nil {
		return nil, err
	}
	out, err := dx.Drain(r, 200000)
	if err != nil {
		return out, err
	}
	if cerr := r.Close(); cerr != nil {
		return out, cerr
	}
	return out, nil
}

// the reader's string handling copies the whole string per refill, so tiny buffers are
// only used on small bodies
func bufSize(c *vt.C, n int) int {
	sizes := []int{16, 64, 1000, 4095, 4096, 4097, 10000, 262144}
	lo := 0
	if n > 20000 {
		lo = 4
	}
	return sizes[vt.N(c.T, lo, 7, "size")]
}
