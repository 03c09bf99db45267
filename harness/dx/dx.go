// Package dx holds helpers over the repository's body readers and writers.
package dx

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"pgregory.net/rapid"
	"verif/vt"
)

// Obj is a JSON object.
type Obj = map[string]interface{}

// Arr is a JSON array.
type Arr = []interface{}

// St builds a structure with a bare top-level type.
func St(format, tlt, comp string) *dataset.Structure {
	return &dataset.Structure{Format: format, Compression: comp, Schema: Obj{"type": tlt}}
}

// Comp draws a compression name, mostly none.
func Comp(t *rapid.T) string {
	switch vt.N(t, 0, 15, "comp") {
	case 12:
		return "gzip"
	case 13:
		return "gz"
	case 14:
		return "zst"
	case 15:
		return "zstd"
	}
	return ""
}

// Write writes entries to a new body.
func Write(st *dataset.Structure, ents []dsio.Entry) ([]byte, error) {
	buf := &bytes.Buffer{}
	w, err := dsio.NewEntryWriter(st, buf)
	if err != nil {
		return nil, fmt.Errorf("new writer: %w", err)
	}
	for i, e := range ents {
		if err := w.WriteEntry(e); err != nil {
			return nil, fmt.Errorf("write entry %d: %w", i, err)
		}
	}
	if err := w.Close(); err != nil {
		return nil, fmt.Errorf("close writer: %w", err)
	}
	return buf.Bytes(), nil
}

// Drain reads entries until the reader stops or max is exceeded.
func Drain(r dsio.EntryReader, max int) ([]dsio.Entry, error) {
	var out []dsio.Entry
	for {
		e, err := r.ReadEntry()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		out = append(out, e)
		if len(out) > max {
			return out, fmt.Errorf("vt: more than %d entries", max)
		}
	}
}

// Read reads a whole body.
func Read(st *dataset.Structure, src io.Reader, max int) ([]dsio.Entry, error) {
	r, err := dsio.NewEntryReader(st, src)
	if err != nil {
		return nil, fmt.Errorf("new reader: %w", err)
	}
	out, err := Drain(r, max)
	cerr := r.Close()
	if err == nil && cerr != nil {
		err = fmt.Errorf("close reader: %w", cerr)
	}
	return out, err
}

// DiffEntries compares entries written with entries read, in order.
func DiffEntries(want, got []dsio.Entry, keyed, checkIndex bool, o vt.CmpOpts) string {
	if len(want) != len(got) {
		return fmt.Sprintf("want %d entries, got %d", len(want), len(got))
	}
	for i := range want {
		if keyed && want[i].Key != got[i].Key {
			return fmt.Sprintf("entry %d: want key %q, got %q", i, vt.Trunc(want[i].Key, 80), vt.Trunc(got[i].Key, 80))
		}
		if !keyed && got[i].Key != "" {
			return fmt.Sprintf("entry %d: unexpected key %q", i, got[i].Key)
		}
		if checkIndex && got[i].Index != i {
			return fmt.Sprintf("entry %d: position %d", i, got[i].Index)
		}
		if d := vt.Diff(want[i].Value, got[i].Value, o); d != "" {
			return fmt.Sprintf("entry %d: %s", i, d)
		}
	}
	return ""
}

// ManyCount draws a large number of entries, biased to the neighbourhood of round numbers.
func ManyCount(c *vt.C, max int) int {
	n := 0
	switch vt.N(c.T, 0, 10, "countKind") {
	case 10:
		if n = vt.DictLen(c.T, max); n < 200 {
			n += 999
		}
		n += vt.N(c.T, 0, 2, "countOff")
	case 0, 1, 2, 3:
		n = 1<<vt.N(c.T, 9, 14, "countBits") + vt.N(c.T, -1, 2, "countOff")
	case 4, 5, 6:
		n = []int{1000, 2000, 5000, 10000}[vt.N(c.T, 0, 3, "countRound")] + vt.N(c.T, -1, 2, "countOff")
	case 7, 8:
		n = vt.N(c.T, 400, 9000, "count")
	default:
		n = []int{32767, 32768, 50001, 65535, 65536, 65537, 70000, 100001}[vt.N(c.T, 0, 7, "countHuge")]
	}
	if n > max {
		n = max - vt.N(c.T, 0, 3, "countLess")
	}
	return n
}

// Many draws a long sequence of small entries.
func Many(c *vt.C, keyed bool, max int) []dsio.Entry {
	n := ManyCount(c, max)
	x := uint32(vt.N(c.T, 1, 1<<30, "noise"))
	next := func() uint32 { x = x*1664525 + 1013904223; return x >> 8 }
	wide := vt.N(c.T, 1, 40, "width")
	out := make([]dsio.Entry, n)
	for i := range out {
		r := next()
		var v interface{} = int64(r % 1000)
		switch r % 11 {
		case 0:
			v = nil
		case 1:
			v = r&1024 == 0
		case 2, 3:
			v = strings.Repeat("é", int(next())%wide) + fmt.Sprint(i)
		case 4:
			v = float64(r) + 0.5
		case 5:
			v = []interface{}{int64(i), "x"}
		case 6:
			v = map[string]interface{}{"i": int64(i)}
		case 7:
			v = int64(i) << 32
		}
		out[i].Value = v
		if keyed {
			out[i].Key = fmt.Sprintf("k%x", uint32(i)*2654435761)
		} else {
			out[i].Index = i
		}
	}
	return out
}

// Entries draws a sequence of entries: keyed (unique non-empty keys) or not, or very many
// of them if max is negative.
func Entries(c *vt.C, keyed bool, max int, o vt.ValOpts) []dsio.Entry {
	t := c.T
	if max < 0 {
		return Many(c, keyed, -max)
	}
	n := vt.N(t, 0, max, "entries")
	if vt.Chance(t, 40, "manyEntries") {
		n = vt.N(t, max, 400, "entriesMany")
		o.Depth, o.Str.Big = 0, 0
	}
	var out []dsio.Entry
	seen := map[string]bool{"": true}
	for i := 0; i < n; i++ {
		e := dsio.Entry{}
		if keyed {
			e.Key = vt.Str(t, vt.StrOpts{NonEmpty: true, NoCR: o.Str.NoCR, Big: o.Str.Big / 8})
			if seen[e.Key] {
				e.Key = fmt.Sprintf("%s%d", e.Key, i)
			}
			if seen[e.Key] {
				continue
			}
			seen[e.Key] = true
		} else {
			e.Index = i
		}
		if vt.Chance(t, 40, "deepEntry") {
			e.Value = vt.Deep(t, o, 60)
		} else {
			e.Value = vt.Value(t, o)
		}
		out = append(out, e)
	}
	return out
}

// Noise sets, once in a while, fields of a structure that say nothing about how its body
// is read or written, to values that may well be wrong.
func Noise(c *vt.C, st *dataset.Structure) *dataset.Structure {
	if NoiseFields(c, st); st.Schema != nil && vt.Chance(c.T, 6, "noiseSchema") {
		for i := vt.N(c.T, 1, 3, "keywords"); i > 0; i-- {
			switch vt.N(c.T, 0, 5, "keyword") {
			case 0:
				st.Schema["title"] = "object"
			case 1:
				st.Schema["description"] = "array"
			case 2:
				st.Schema["maxItems"] = 1
			case 3:
				st.Schema["minItems"] = 1000
			case 4:
				st.Schema["maxProperties"] = 1
			case 5:
				st.Schema["$schema"] = "http://json-schema.org/draft-07/schema#"
			}
		}
	}
	return st
}

// NoiseFields is Noise outside the schema.
func NoiseFields(c *vt.C, st *dataset.Structure) *dataset.Structure {
	t := c.T
	if !vt.Chance(t, 3, "noise") {
		return st
	}
	if vt.Bool(t, "noisePath") {
		st.Path = []string{"/mem/a", "/mem/b"}[vt.N(t, 0, 1, "path")]
	}
	n := func(l string) int { return []int{0, 1, 2, 3, 7, 100, -1}[vt.N(t, 0, 6, l)] }
	st.Entries, st.Length, st.Depth, st.ErrCount = n("entries"), n("length"), n("depth"), n("errCount")
	if vt.Bool(t, "noiseMore") {
		st.Qri = "st:0"
		st.Checksum = []string{"", "QmA", "QmB"}[vt.N(t, 0, 2, "checksum")]
		st.Encoding = []string{"", "utf-8", "UTF-16"}[vt.N(t, 0, 2, "encoding")]
		st.Strict = vt.Bool(t, "strict")
	}
	return st
}
