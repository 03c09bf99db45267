package c03

import (
	"bytes"
	"io"
	"testing"

	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/dsio"
	"pgregory.net/rapid"
	"verif/cx"
	"verif/dx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = generated entry sequence (null, booleans, integers, floats, text, byte strings, arrays, objects) x top-level type x compression x read chunking x write order; non-trivial = at least two entries or more than 20 bytes; distinct by the bytes written")
}

func TestC03(t *testing.T) {
	vt.Check(t, "roundtrip", 60000, 1500000, func(c *vt.C) {
		roundTrip(c, vt.ValOpts{Depth: 3, Bytes: true, Str: vt.StrOpts{Big: 9000}}, 10)
	})
	vt.Check(t, "many", 300, 4000, func(c *vt.C) { roundTrip(c, vt.ValOpts{}, -110000) })
	vt.Check(t, "big", 1200, 20000, func(c *vt.C) {
		roundTrip(c, vt.ValOpts{Depth: 1, Bytes: true, Str: vt.StrOpts{Big: 300000}}, 4)
	})
	vt.Check(t, "scalars", 30000, 600000, scalars)
}

var kinds = vt.CmpOpts{IntKind: true, FloatKind: true}

func roundTrip(c *vt.C, o vt.ValOpts, max int) {
	keyed := vt.Bool(c.T, "object")
	tlt := "array"
	if keyed {
		tlt = "object"
	}
	st := dx.Noise(c, dx.St("cbor", tlt, dx.Comp(c.T)))
	ents := dx.Entries(c, keyed, max, o)
	if o.Str.Big > 100000 && len(ents) > 0 {
		ents[vt.N(c.T, 0, len(ents)-1, "bigAt")].Value = vt.BigStr(c.T, o.Str.Big)
	}
	data, err := dx.Write(st, ents)
	if err != nil {
		c.Fatalf("%v", err)
	}
	if len(ents) > 1 || len(data) > 20 {
		c.NonTrivial(data)
	}
	c.Labelf("%s comp=%q", tlt, st.Compression)
	c.Sample("%s %x", tlt, data)

	// the same again, and in another order of keys, gives the same bytes
	again := make([]dsio.Entry, len(ents))
	for i := range ents {
		again[i] = dsio.Entry{Key: ents[i].Key, Index: ents[i].Index, Value: vt.Clone(ents[i].Value)}
	}
	if keyed && len(ents) > 1000 {
		for i, j := 0, len(again)-1; i < j; i, j = i+1, j-1 {
			again[i], again[j] = again[j], again[i]
		}
	} else if keyed && len(ents) > 1 {
		perm := rapid.Permutation(again).Draw(c.T, "order")
		again = perm
	}
	data2, err := dx.Write(st, again)
	if err != nil {
		c.Fatalf("second write: %v", err)
	}
	if !bytes.Equal(data, data2) {
		c.Fatalf("same content, other bytes: %x vs %x", vt.Trunc(string(data), 200), vt.Trunc(string(data2), 200))
	}

	plain := data
	if st.Compression != "" {
		r, err := compression.Decompressor(st.Compression, bytes.NewReader(data))
		if err != nil {
			c.Fatalf("decompressor: %v", err)
		}
		if plain, err = io.ReadAll(r); err != nil {
			c.Fatalf("decompressing: %v", err)
		}
		r.Close()
	}
	v, err := cx.Decode(plain)
	if err != nil {
		c.Fatalf("independent decoder: %v on %x", err, vt.Trunc(string(plain), 200))
	}
	if keyed {
		ps, _ := v.(cx.Pairs)
		m := map[string]interface{}{}
		for _, p := range ps {
			m[p.K] = p.V
		}
		if _, isArr := v.([]interface{}); isArr || len(m) != len(ps) {
			c.Fatalf("not a map of distinct keys: %x", vt.Trunc(string(plain), 200))
		}
		if d := vt.Diff(asMap(ents), m, kinds); d != "" {
			c.Fatalf("independent decoder sees other data: %s", d)
		}
	} else {
		arr := make([]interface{}, len(ents))
		for i := range ents {
			arr[i] = ents[i].Value
		}
		if d := vt.Diff(arr, v, kinds); d != "" {
			c.Fatalf("independent decoder sees other data: %s", d)
		}
	}

	got, err := dx.Read(st, vt.Chunks(c, data), len(ents)+1)
	if err != nil {
		c.Fatalf("reading back: %v\nbody %x", err, vt.Trunc(string(plain), 200))
	}
	if keyed {
		if len(got) != len(ents) {
			c.Fatalf("wrote %d entries, read %d", len(ents), len(got))
		}
		if d := vt.Diff(asMap(ents), asMap(got), kinds); d != "" {
			c.Fatalf("round trip: %s", d)
		}
	} else if d := dx.DiffEntries(ents, got, false, true, kinds); d != "" {
		c.Fatalf("round trip: %s\nbody %x", d, vt.Trunc(string(plain), 200))
	}
}

func asMap(ents []dsio.Entry) map[string]interface{} {
	m := map[string]interface{}{}
	for _, e := range ents {
		m[e.Key] = e.Value
	}
	return m
}

// scalars sweeps lists of scalars, cheaply covering the width boundaries.
func scalars(c *vt.C) {
	n := vt.N(c.T, 1, 30, "n")
	ents := make([]dsio.Entry, n)
	for i := range ents {
		ents[i] = dsio.Entry{Index: i, Value: vt.Scalar(c.T, vt.ValOpts{Bytes: true})}
	}
	st := dx.Noise(c, dx.St("cbor", "array", ""))
	data, err := dx.Write(st, ents)
	if err != nil {
		c.Fatalf("%v", err)
	}
	c.NonTrivial(data)
	c.Sample("%x", data)
	got, err := dx.Read(st, bytes.NewReader(data), n+1)
	if err != nil {
		c.Fatalf("reading back: %v\nbody %x", err, data)
	}
	if d := dx.DiffEntries(ents, got, false, true, kinds); d != "" {
		c.Fatalf("round trip: %s\nbody %x", d, data)
	}
}
