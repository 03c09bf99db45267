package c41

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/qfs"
	"verif/dx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a structure put together from a format name, a compression name and a schema, each usable or not, given with a body to every way of making a reader, writer or buffer and to the helpers on top of them; non-trivial = exactly one part is unusable, or none; distinct by structure and body")
}

func TestC41(t *testing.T) {
	vt.Check(t, "structures", 12000, 200000, structures)
	vt.Check(t, "xlsx", 500, 8000, func(c *vt.C) { run(c, "xlsx", "xlsx") })
	vt.Check(t, "native", 8000, 100000, native)
}

var names = map[string][]string{
	"json": {"json", ".json"}, "cbor": {"cbor", ".cbor"}, "csv": {"csv", ".csv"},
	"ndjson": {"ndjson", ".ndjson", "jsonl", ".jsonl"}, "xlsx": {"xlsx", ".xlsx"},
}

var unknown = []string{"", "xml", ".xml", "zip", "tsv", "parquet", "json ", "jsonx", "ndjson2", "text/csv", "gzip", "yaml", "-"}

func structures(c *vt.C) {
	kind := vt.One(c.T, "format", "json", "cbor", "csv", "ndjson")
	name := vt.One(c.T, "name", names[kind]...)
	if vt.Chance(c.T, 6, "unknownFormat") {
		name = vt.One(c.T, "unknown", unknown...)
		if vt.Chance(c.T, 3, "someString") {
			if s := vt.Str(c.T, vt.StrOpts{}); !known(s) {
				name = s
			}
		}
	}
	run(c, kind, name)
}

func known(s string) bool {
	for _, ns := range names {
		for _, n := range ns {
			if n == s {
				return true
			}
		}
	}
	return false
}

// schema draws a schema, and says which top-level type it gives entries ("" = none) and
// whether it describes columns.
func schema(c *vt.C, kind string) (sch dx.Obj, tlt string, table bool) {
	switch vt.N(c.T, 0, 11, "schema") {
	case 0:
		return nil, "", false
	case 1:
		return dx.Obj{}, "", false
	case 2:
		bad := []interface{}{nil, 5, 1.5, true, dx.Arr{}, dx.Arr{"array"}, dx.Obj{"type": "array"}, []string{"array"}}
		return dx.Obj{"type": bad[vt.N(c.T, 0, len(bad)-1, "badType")]}, "", false
	case 3:
		return dx.Obj{"type": vt.One(c.T, "otherType", "", "string", "null", "number", "integer", "boolean", "Array", "arr", "object ", "list")}, "", false
	case 4:
		return dx.Obj{"items": dx.Obj{"type": "array", "items": dx.Arr{dx.Obj{"title": "a"}}}}, "", false
	case 5, 6:
		if kind == "csv" || kind == "xlsx" {
			bad := []interface{}{nil, 5, true, "x", dx.Arr{}, dx.Obj{}, dx.Obj{"items": dx.Obj{}}, dx.Obj{"items": nil}, dx.Obj{"items": "x"}, dx.Obj{"type": "array"}}
			return dx.Obj{"type": "array", "items": bad[vt.N(c.T, 0, len(bad)-1, "badItems")]}, "array", false
		}
		return dx.Obj{"type": "array"}, "array", false
	case 7, 8:
		return dx.Obj{"type": "object"}, "object", false
	}
	n := vt.N(c.T, 1, 3, "cols")
	cols := dx.Arr{}
	for i := 0; i < n; i++ {
		cols = append(cols, dx.Obj{"title": fmt.Sprintf("c%d", i), "type": "string"})
	}
	return dx.Obj{"type": "array", "items": dx.Obj{"type": "array", "items": cols}}, "array", true
}

func run(c *vt.C, kind, name string) {
	sch, tlt, table := schema(c, kind)
	comp := ""
	compOK, compKnown := true, true
	switch {
	case vt.Chance(c.T, 4, "compressed"):
		comp = vt.One(c.T, "comp", "gzip", "gz", "zst", "zstd")
		compOK = kind != "xlsx"
	case vt.Chance(c.T, 8, "unknownComp"):
		comp, compOK = vt.One(c.T, "badComp", "zip", "GZIP", "gz ", ".gz", "bz2", "none", "lz4", "zst1", "-"), false
		compKnown = false
	}
	st := &dataset.Structure{Format: name, Compression: comp, Schema: sch}
	dx.NoiseFields(c, st)
	var why []string
	if !known(name) {
		why = append(why, "format")
	}
	if !compOK {
		why = append(why, "compression")
	}
	switch {
	case tlt == "":
		why = append(why, "schema")
	case kind == "ndjson" && tlt != "array":
		why = append(why, "lines have no keys")
	case (kind == "csv" || kind == "xlsx") && !table:
		why = append(why, "no columns")
	}
	ok := len(why) == 0

	// a body that fits whatever can be right about the structure
	keyed := tlt == "object"
	var ents []dsio.Entry
	for i, n := 0, vt.N(c.T, 0, 3, "entries"); i < n; i++ {
		e := dsio.Entry{Index: i, Value: fmt.Sprint("v", i)}
		if kind == "csv" || kind == "xlsx" || table {
			row := dx.Arr{}
			ncols := 1
			if table {
				ncols = len(sch["items"].(dx.Obj)["items"].(dx.Arr))
			}
			for j := 0; j < ncols; j++ {
				row = append(row, fmt.Sprintf("r%dc%d", i, j))
			}
			e.Value = row
		}
		if keyed {
			e.Key = fmt.Sprint("k", i)
		}
		ents = append(ents, e)
	}
	good := &dataset.Structure{Format: kind, Schema: dx.Obj{"type": "array"}}
	if keyed && kind != "ndjson" {
		good.Schema["type"] = "object"
	}
	if kind == "csv" || kind == "xlsx" {
		good.Schema = dx.Obj{"type": "array", "items": dx.Obj{"type": "array", "items": dx.Arr{dx.Obj{"title": "a"}}}}
		if table {
			good.Schema = sch
		}
	}
	if compOK {
		good.Compression = comp
	}
	body, err := dx.Write(good, ents)
	if err != nil {
		c.Fatalf("writing with a usable structure %+v: %v", good, err)
	}
	if len(why) <= 1 {
		c.NonTrivial(fmt.Sprintf("%q %q %v %d", name, comp, sch, len(ents)))
	}
	c.Labelf("%s %v", kind, why)
	c.Sample("%q %q %v: %v", name, comp, sch, why)

	verdict := func(what string, err error) {
		if ok && err != nil {
			c.Fatalf("%s: usable structure (%q, %q, %v) refused: %v", what, name, comp, sch, err)
		}
		if !ok && err == nil {
			c.Fatalf("%s: structure (%q, %q, %v) accepted although its %s cannot be used", what, name, comp, sch, strings.Join(why, ", "))
		}
	}
	c.NoPanic("making readers and writers", func() {
		r, err := dsio.NewEntryReader(st, bytes.NewReader(body))
		verdict("NewEntryReader", err)
		if ok {
			got, err := dx.Drain(r, len(ents)+1)
			if err != nil {
				c.Fatalf("reading: %v", err)
			}
			if d := dx.DiffEntries(ents, got, keyed, false, vt.CmpOpts{}); d != "" {
				c.Fatalf("reading: %s", d)
			}
			if r.Structure() != st {
				c.Fatalf("the reader has another structure")
			}
			r.Close()
		}

		buf := &bytes.Buffer{}
		w, err := dsio.NewEntryWriter(st, buf)
		verdict("NewEntryWriter", err)
		if ok {
			if w.Structure() != st {
				c.Fatalf("the writer has another structure")
			}
			for _, e := range ents {
				if err := w.WriteEntry(e); err != nil {
					c.Fatalf("writing: %v", err)
				}
			}
			if err := w.Close(); err != nil {
				c.Fatalf("closing the writer: %v", err)
			}
			got, err := dx.Read(st, bytes.NewReader(buf.Bytes()), len(ents)+1)
			if err != nil {
				c.Fatalf("reading what was written: %v", err)
			}
			if d := dx.DiffEntries(ents, got, keyed, false, vt.CmpOpts{}); d != "" {
				c.Fatalf("reading what was written: %s", d)
			}
		} else if buf.Len() > 0 {
			c.Fatalf("a refused writer wrote %q", buf.Bytes())
		}

		// a buffer starts empty, which only some compressions can be read from
		if b, err := dsio.NewEntryBuffer(st); !ok || (comp == "" && kind != "xlsx") {
			verdict("NewEntryBuffer", err)
			if ok && b.Structure() != st {
				c.Fatalf("the buffer has another structure")
			}
		}

		// conversions from and to it
		out := &dataset.Structure{Format: "json", Schema: dx.Obj{"type": "array"}}
		if keyed {
			out.Schema["type"] = "object"
		}
		lim := vt.N(c.T, 0, 4, "limit")
		all := vt.Bool(c.T, "all")
		data, err := dsio.ConvertFile(qfs.NewMemfileBytes("body", body), st, out, lim, 0, all)
		verdict("ConvertFile from it", err)
		if err != nil && len(data) > 0 {
			c.Fatalf("a refused conversion gave %q", data)
		}
		jb, err := dx.Write(out, ents)
		if err != nil {
			c.Fatalf("%v", err)
		}
		data, err = dsio.ConvertFile(qfs.NewMemfileBytes("body.json", jb), out, st, lim, 0, all)
		verdict("ConvertFile to it", err)
		if err != nil && len(data) > 0 {
			c.Fatalf("a refused conversion gave %q", data)
		}
		if kind == "json" && name != "" && vt.Bool(c.T, "pretty") {
			pst := *st
			pst.FormatConfig = map[string]interface{}{"pretty": true}
			_, err = dsio.ConvertFile(qfs.NewMemfileBytes("body.json", jb), out, &pst, lim, 0, all)
			verdict("ConvertFile to it, pretty", err)
		}

		// what works on datasets
		ds := &dataset.Dataset{Structure: st}
		ds.SetBodyFile(qfs.NewMemfileBytes("body", body))
		stats, err := dsstats.Calculate(ds)
		verdict("dsstats.Calculate", err)
		if err != nil && stats != nil {
			c.Fatalf("stats next to the error %v", err)
		}
		ds = &dataset.Dataset{Structure: st}
		ds.SetBodyFile(qfs.NewMemfileBytes("body", body))
		pv, err := preview.Create(context.Background(), ds)
		verdict("preview.Create", err)
		if err != nil && pv != nil {
			c.Fatalf("a preview next to the error %v", err)
		}
		if tlt == "" || sch == nil {
			ir, err := dsio.NewIdentityReader(st, dx.Arr{1, 2})
			if err != nil {
				c.Fatalf("NewIdentityReader: %v", err)
			}
			if v, err := dsio.ReadAll(ir); err == nil {
				c.Fatalf("ReadAll without a top-level type gave %v", v)
			}
			if ke, err := validate.EntryReader(ir); err == nil {
				c.Fatalf("validate.EntryReader without a top-level type gave %v", ke)
			}
			ir.Close()
		}
		if tt, err := dsio.GetTopLevelType(st); (err == nil) != (tlt != "") || (err == nil && tt != tlt) {
			c.Fatalf("GetTopLevelType(%v) = %q, %v; want %q", sch, tt, err, tlt)
		}
		if comp != "" {
			known := compKnown
			if _, err := compression.ParseFormat(comp); (err == nil) != known {
				c.Fatalf("ParseFormat(%q): %v", comp, err)
			}
			if wc, err := compression.Compressor(comp, io.Discard); (err == nil) != known {
				c.Fatalf("Compressor(%q): %v", comp, err)
			} else if err == nil {
				wc.Close()
			}
			if !known {
				if _, err := compression.Decompressor(comp, bytes.NewReader(body)); err == nil {
					c.Fatalf("Decompressor(%q) accepted", comp)
				}
			}
		}
		// without a structure or without a body there is nothing to read
		if vt.Chance(c.T, 8, "missing") {
			ds := &dataset.Dataset{}
			ds.SetBodyFile(qfs.NewMemfileBytes("body", body))
			if s, err := dsstats.Calculate(ds); err == nil {
				c.Fatalf("stats without a structure: %v", s)
			}
			ds = &dataset.Dataset{Structure: st}
			if s, err := dsstats.Calculate(ds); err == nil {
				c.Fatalf("stats without a body: %v", s)
			}
			ds = &dataset.Dataset{Name: "a"}
			ds.SetBodyFile(qfs.NewMemfileBytes("body", body))
			if s, err := preview.Create(context.Background(), ds); err == nil {
				c.Fatalf("preview of a body without a structure: %v", s)
			}
		}
	})
}

// native: an in-memory reader is made of arrays and objects only.
func native(c *vt.C) {
	v := vt.Value(c.T, vt.ValOpts{Depth: 2, Bytes: true})
	if vt.Chance(c.T, 5, "other") {
		v = []interface{}{[]string{"a"}, map[string]string{"a": "b"}, []int{1}, struct{}{}, (*int)(nil), map[interface{}]interface{}{"a": 1}, []map[string]interface{}{{}}}[vt.N(c.T, 0, 6, "which")]
	}
	_, isArr := v.([]interface{})
	_, isObj := v.(map[string]interface{})
	tlt := "array"
	if isObj {
		tlt = "object"
	}
	c.NonTrivial(fmt.Sprintf("%T %v", v, v))
	c.Labelf("native usable=%v", isArr || isObj)
	c.Sample("%T", v)
	c.NoPanic("NewIdentityReader", func() {
		r, err := dsio.NewIdentityReader(dx.St("json", tlt, ""), v)
		if (err == nil) != (isArr || isObj) {
			c.Fatalf("NewIdentityReader(%s): %v", vt.Show(v), err)
		}
		if err == nil {
			r.Close()
		}
	})
}
