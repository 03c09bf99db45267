package c33

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/qfs"
	"verif/dx"
	"verif/jx"
	"verif/mx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a dataset document with a body file of drawn format and size and a readme file of drawn length, previewed once or more, or one that must be refused; non-trivial = a body of at least two entries or a readme; distinct by body, readme and document")
}

func TestC33(t *testing.T) {
	vt.Check(t, "create", 6000, 120000, func(c *vt.C) { create(c, false, false) })
	vt.Check(t, "create_big", 200, 4000, func(c *vt.C) { create(c, false, true) })
	vt.Check(t, "create_xlsx", 80, 1600, func(c *vt.C) { create(c, true, false) })
	vt.Check(t, "refuse", 4000, 240000, refuse)
}

var ctx = context.Background()

// size draws an entry count biased around the limit.
func size(c *vt.C) int {
	switch vt.N(c.T, 0, 5, "sizeKind") {
	case 0:
		return vt.N(c.T, 0, 5, "size")
	case 1, 2:
		return vt.N(c.T, 97, 103, "size")
	case 3:
		return []int{100, 101, 99, 200, 1000}[vt.N(c.T, 0, 4, "size")]
	}
	return vt.N(c.T, 0, 260, "size")
}

// body draws a body with its structure, and gives its first entries and all its bytes.
func body(c *vt.C, xlsx, big bool) (*dataset.Structure, []byte, []dsio.Entry) {
	n := size(c)
	format := vt.One(c.T, "format", "json", "cbor", "ndjson", "csv")
	if xlsx {
		format = "xlsx"
		n = vt.N(c.T, 0, 130, "xlsxSize")
	}
	x := uint32(0)
	var noise func() string // text that does not compress
	if big {
		n = vt.N(c.T, 150, 900, "bigSize")
		x = uint32(vt.N(c.T, 1, 1<<20, "noise"))
		k := vt.N(c.T, 500, 3000, "noiseLen")
		noise = func() string {
			b := make([]byte, k)
			for i := range b {
				x = x*1664525 + 1013904223
				b[i] = 'A' + byte(x>>24)%58
			}
			return string(b)
		}
	}
	var st *dataset.Structure
	var ents []dsio.Entry
	if format == "csv" || xlsx {
		tb := dx.GenTable(c, dx.TableOpts{Str: vt.StrOpts{NoCR: true, XML: true, Max: 40}, MaxCols: 3, MaxRows: 4, Depth: 1})
		if big {
			tb.Cols = append(tb.Cols, dx.Obj{"title": "pad", "type": "string"})
		}
		st = &dataset.Structure{Format: format, Schema: tb.Schema()}
		if !xlsx {
			st = dx.CSVStructure(c, tb, false)
		}
		for i := 0; i < n && len(tb.Rows) > 0; i++ {
			row := tb.Rows[i%len(tb.Rows)]
			if big {
				row = append(append(dx.Arr{}, row...), noise())
			}
			ents = append(ents, dsio.Entry{Index: i, Value: row})
		}
	} else {
		keyed := format != "ndjson" && vt.Bool(c.T, "keyed")
		st = dx.St(format, "array", dx.Comp(c.T))
		if keyed {
			st.Schema["type"] = "object"
		}
		var vals []interface{}
		for i, k := 0, vt.N(c.T, 1, 4, "values"); i < k; i++ {
			vals = append(vals, vt.Value(c.T, vt.ValOpts{Depth: 2, Width: 3, Str: vt.StrOpts{Max: 60}}))
		}
		for i := 0; i < n; i++ {
			e := dsio.Entry{Index: i, Value: vals[i%len(vals)]}
			if i%3 == 0 {
				e.Value = i
			}
			if big {
				e.Value = dx.Arr{noise(), e.Value}
			}
			if keyed {
				e = dsio.Entry{Key: fmt.Sprintf("k%d", (i*7919)%1009+i*1009), Value: e.Value}
			}
			ents = append(ents, e)
		}
	}
	data, err := dx.Write(st, ents)
	if err != nil {
		c.Fatalf("%v", err)
	}
	full, err := dx.Read(st, bytes.NewReader(data), len(ents)+2)
	if err != nil {
		c.Fatalf("%v", err)
	}
	if len(full) != len(ents) {
		c.Fatalf("wrote %d entries, read %d", len(ents), len(full))
	}
	return st, data, full
}

func text(c *vt.C) []byte {
	var n int
	switch vt.N(c.T, 0, 3, "lenKind") {
	case 0:
		n = vt.N(c.T, 0, 20, "len")
	case 1:
		n = vt.N(c.T, 994, 1002, "len")
	case 2:
		n = vt.N(c.T, 0, 3000, "len")
	case 3:
		n = []int{997, 996, 998, 1000, 512, 513, 5000, 40000}[vt.N(c.T, 0, 7, "len")]
		if vt.Chance(c.T, 5, "long") {
			n = 60000 + vt.N(c.T, 0, 200000, "longLen")
		}
	}
	base := []string{"a", "# readme\n", "é", "\n", "日本", "x\r\n", "."}[vt.N(c.T, 0, 6, "base")] + vt.Str(c.T, vt.StrOpts{})
	return []byte(strings.Repeat(base, n/len(base)+1)[:n])
}

func file(c *vt.C, name string, data []byte) qfs.File {
	if vt.Bool(c.T, "sized") {
		return qfs.NewMemfileBytes(name, append([]byte(nil), data...))
	}
	return qfs.NewMemfileReader(name, vt.Chunks(c, data))
}

func create(c *vt.C, xlsx, big bool) {
	ds := mx.Gen(c.T, "dataset", mx.Opts{}).(*dataset.Dataset)
	ds.Name = "n"
	if vt.Bool(c.T, "noInline") {
		ds.Body, ds.BodyBytes = nil, nil
	}
	var st *dataset.Structure
	var data, readme []byte
	var full []dsio.Entry
	hasBody, hasReadme := xlsx || big || !vt.Chance(c.T, 8, "noBody"), !vt.Chance(c.T, 4, "noReadme")
	if hasBody {
		st, data, full = body(c, xlsx, big)
		if o := ds.Structure; o != nil { // fields that do not matter to reading
			st.Path, st.Checksum, st.Length, st.Entries, st.Depth, st.ErrCount, st.Strict, st.Qri = o.Path, o.Checksum, o.Length, o.Entries, o.Depth, o.ErrCount, o.Strict, o.Qri
		}
		ds.Structure = st
		ds.SetBodyFile(file(c, "/dir/body."+st.Format, data))
	}
	if hasReadme {
		readme = text(c)
		if ds.Readme == nil {
			ds.Readme = &dataset.Readme{Format: "md"}
		}
		ds.Readme.SetScriptFile(file(c, "/dir/readme.md", readme))
	}
	snap := mx.Copy(ds).(*dataset.Dataset)
	times := 1
	if vt.Chance(c.T, 3, "again") {
		times = vt.N(c.T, 2, 3, "times")
	}
	var got *dataset.Dataset
	for i := 0; i < times; i++ {
		if i > 0 {
			ds.Body = snap.Body // a preview's own body is not part of the dataset
		}
		var err error
		c.NoPanic("create", func() { got, err = preview.Create(ctx, ds) })
		if err != nil {
			c.Fatalf("preview %d of a %d-entry %v body: %v", i+1, len(full), st, err)
		}
		if got == nil {
			c.Fatalf("no preview")
		}
		judge(c, got, snap, full, readme, hasBody, hasReadme)
	}
	if hasBody {
		whole(c, got.BodyFile(), ds.BodyFile(), data, "/dir/body."+st.Format, "body")
		c.Labelf("body %s %s n=%d", st.Format, st.Schema["type"], bucket(len(full)))
	}
	if hasReadme {
		whole(c, got.Readme.ScriptFile(), ds.Readme.ScriptFile(), readme, "/dir/readme.md", "readme")
		c.Labelf("readme len<997=%v >997=%v", len(readme) < 997, len(readme) > 997)
	}
	if len(full) > 1 || len(readme) > 0 {
		c.NonTrivial(data, readme, mx.Sprint(snap))
	}
	c.Sample("%d-byte body of %d entries, %d-byte readme", len(data), len(full), len(readme))
}

func bucket(n int) int {
	switch {
	case n < 2:
		return n
	case n < 100:
		return 2
	case n == 100:
		return 100
	}
	return 101
}

// whole checks that a file, on the preview or else on the dataset, delivers everything.
func whole(c *vt.C, f, alt qfs.File, want []byte, path, what string) {
	if f == nil {
		f = alt
	}
	if f == nil {
		c.Fatalf("the %s file is gone", what)
	}
	if f.FullPath() != path {
		c.Fatalf("the %s file is now called %q, was %q", what, f.FullPath(), path)
	}
	if sf, ok := f.(qfs.SizeFile); ok {
		if n := sf.Size(); n >= 0 && n != int64(len(want)) {
			c.Fatalf("the %s file says it has %d bytes, want %d", what, n, len(want))
		}
	}
	data, err := io.ReadAll(f)
	if err != nil {
		c.Fatalf("reading the %s file after a preview: %v", what, err)
	}
	if !bytes.Equal(data, want) {
		c.Fatalf("after a preview the %s file delivers %d bytes, want %d (first difference at %d)", what, len(data), len(want), firstDiff(data, want))
	}
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func judge(c *vt.C, got, snap *dataset.Dataset, full []dsio.Entry, readme []byte, hasBody, hasReadme bool) {
	d := mx.Diff(snap, got, mx.DiffOpts{Skip: func(kind, field string) bool {
		return hasBody && kind == "dataset" && field == "Body" || hasReadme && kind == "readme" && field == "Text"
	}})
	if d != "" {
		c.Fatalf("preview differs from the dataset: %s", d)
	}
	if hasReadme {
		want := string(readme)
		if len(readme) > 997 {
			want = string(readme[:997]) + "..."
		}
		if got.Readme.Text != want {
			c.Fatalf("%d-byte readme previewed as %d bytes ending in %q, want %d", len(readme), len(got.Readme.Text), tail(got.Readme.Text), len(want))
		}
	}
	if !hasBody {
		return
	}
	want := full
	if len(want) > 100 {
		want = want[:100]
	}
	raw, ok := got.Body.(json.RawMessage)
	if !ok {
		var err error
		if raw, err = json.Marshal(got.Body); err != nil {
			c.Fatalf("preview body: %v", err)
		}
	}
	top, err := jx.Parse(raw)
	if err != nil {
		c.Fatalf("preview body %s: %v", vt.Trunc(string(raw), 300), err)
	}
	if len(top.Entries) != len(want) {
		c.Fatalf("preview of %d entries holds %d, want %d", len(full), len(top.Entries), len(want))
	}
	keyed := got.Structure.Schema["type"] == "object"
	if keyed != top.Object {
		c.Fatalf("preview of an %v body is %s", got.Structure.Schema["type"], vt.Trunc(string(raw), 40))
	}
	for i, e := range want {
		if keyed && top.Entries[i].Key != e.Key {
			c.Fatalf("preview entry %d has key %q, want %q", i, top.Entries[i].Key, e.Key)
		}
		if d := vt.Diff(e.Value, top.Entries[i].Value, vt.CmpOpts{}); d != "" {
			c.Fatalf("preview entry %d: %s", i, d)
		}
	}
}

func tail(s string) string {
	if len(s) > 12 {
		return s[len(s)-12:]
	}
	return s
}

func refuse(c *vt.C) {
	var ds *dataset.Dataset
	how := vt.N(c.T, 0, 7, "how")
	if how == 7 && !vt.Chance(c.T, 4, "late") {
		how = 2
	}
	switch how {
	case 0: // nothing
	case 1:
		ds = &dataset.Dataset{}
		if vt.Bool(c.T, "path") {
			ds.Path, ds.Qri = "/mem/x", "ds:0"
		}
	default:
		ds = mx.Gen(c.T, "dataset", mx.Opts{}).(*dataset.Dataset)
		ds.Name = "n"
		st, data, full := body(c, false, how == 7)
		ds.Structure = st
		switch how {
		case 7: // the body source fails late, before the entries of a preview
			if len(full) < 150 {
				c.Label("short")
				return
			}
			cut := len(data) / len(full) * vt.N(c.T, 1, 60, "cutEntry")
			if st.Compression != "" || cut >= len(data)/2 {
				c.Label("compressed")
				return
			}
			ch := vt.Chunks(c, data[:cut])
			ch.Err = vt.Fault(c.T)
			ds.SetBodyFile(qfs.NewMemfileReader("body", ch))
		case 2: // the body source fails early
			cut := 0
			if len(data) > 0 {
				cut = vt.N(c.T, 0, min(len(data)-1, 40), "cut")
			}
			if len(full) > 60 {
				c.Label("long")
				return
			}
			ch := vt.Chunks(c, data[:cut])
			ch.Err = vt.Fault(c.T)
			ds.SetBodyFile(qfs.NewMemfileReader("body", ch))
		case 3: // malformed body
			st.Format, st.Compression, st.FormatConfig = "json", "", nil
			st.Schema = dx.Obj{"type": "array"}
			ds.SetBodyFile(qfs.NewMemfileBytes("body", []byte([]string{"", "[", `["a`, "{}", "[1,tru]", "nope", `["a" "b"]`}[vt.N(c.T, 0, 6, "bad")])))
		case 4: // no structure
			ds.Structure = nil
			ds.SetBodyFile(file(c, "body", data))
		case 5: // unusable structure
			ds.SetBodyFile(file(c, "body", data))
			switch vt.N(c.T, 0, 3, "unusable") {
			case 0:
				st.Format = "nope"
			case 1:
				st.Schema = nil
			case 2:
				st.Schema = dx.Obj{"type": "string"}
			case 3:
				st.Compression = "nope"
			}
		case 6: // the readme fails
			ch := vt.Chunks(c, text(c))
			if len(ch.Data) > 990 {
				ch.Data = ch.Data[:990]
			}
			ch.Err = vt.Fault(c.T)
			if ds.Readme == nil {
				ds.Readme = &dataset.Readme{}
			}
			ds.Readme.SetScriptFile(qfs.NewMemfileReader("readme", ch))
		}
		c.NonTrivial(how, data, mx.Sprint(ds))
	}
	var err error
	c.NoPanic("create", func() { _, err = preview.Create(ctx, ds) })
	if err == nil {
		c.Fatalf("preview %d succeeded", how)
	}
	c.Labelf("refused %d", how)
}
