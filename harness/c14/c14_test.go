package c14

import (
	"bytes"
	"fmt"
	"io"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/qfs"
	"verif/dx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a body, a limit and an offset read through the paged reader or converted to another format and read back; or an unreadable source / unwritable entry given to the conversion; non-trivial = at least two entries; distinct by body, formats and page")
}

func TestC14(t *testing.T) {
	vt.Check(t, "paged", 20000, 400000, paged)
	vt.Check(t, "convert_table", 12000, 240000, func(c *vt.C) { convertTable(c, false) })
	vt.Check(t, "convert_xlsx", 150, 3000, func(c *vt.C) { convertTable(c, true) })
	vt.Check(t, "convert_object", 10000, 200000, convertObject)
	vt.Check(t, "unreadable", 10000, 200000, unreadable)
	vt.Check(t, "unwritable", 10000, 200000, unwritable)
	vt.Check(t, "big", 600, 12000, big)
}

func page(c *vt.C, n int) (limit, offset int) {
	draw := func(label string) int {
		switch vt.N(c.T, 0, 5, label+"Kind") {
		case 0:
			return vt.N(c.T, 0, n+3, label)
		case 1:
			return 0
		case 2:
			return n
		case 3:
			return 1
		case 4:
			return vt.DictLen(c.T, 2000)
		}
		return vt.N(c.T, 0, n, label)
	}
	return draw("limit"), draw("offset")
}

func slice(ents []dsio.Entry, limit, offset int) []dsio.Entry {
	if offset >= len(ents) {
		return nil
	}
	ents = ents[offset:]
	if limit < len(ents) {
		ents = ents[:limit]
	}
	return ents
}

func renumber(ents []dsio.Entry) []dsio.Entry {
	out := append([]dsio.Entry{}, ents...)
	for i := range out {
		out[i].Index = i
	}
	return out
}

func paged(c *vt.C) {
	format := vt.One(c.T, "format", "json", "cbor", "ndjson", "csv")
	st, data, full := body(c, format)
	limit, offset := page(c, len(full))
	r, err := dsio.NewEntryReader(st, bytes.NewReader(data))
	if err != nil {
		c.Fatalf("%v", err)
	}
	pr := &dsio.PagedReader{Reader: r, Limit: limit, Offset: offset}
	if pr.Structure() != st {
		c.Fatalf("structure of a paged reader differs")
	}
	got, err := dx.Drain(pr, len(full)+2)
	if err != nil {
		c.Fatalf("%s limit %d offset %d of %d: %v", format, limit, offset, len(full), err)
	}
	want := slice(full, limit, offset)
	if len(full) > 1 {
		c.NonTrivial(data, limit, offset)
	}
	c.Sample("%s: %d entries, limit %d offset %d", format, len(full), limit, offset)
	c.Labelf("page takes all=%v empty=%v", len(want) == len(full), len(want) == 0)
	if d := same(want, got); d != "" {
		c.Fatalf("%s limit %d offset %d of %d entries: %s", format, limit, offset, len(full), d)
	}
	if limit <= len(full)-offset { // ended by the limit: stays ended
		for i := 0; i < 2; i++ {
			if _, err := pr.ReadEntry(); err != io.EOF {
				c.Fatalf("reading past the page: %v", err)
			}
		}
	}
	if err := pr.Close(); err != nil {
		c.Fatalf("close: %v", err)
	}
}

// same compares entries incl. key and position.
func same(want, got []dsio.Entry) string {
	if len(want) != len(got) {
		return fmt.Sprintf("want %d entries, got %d", len(want), len(got))
	}
	for i := range want {
		if want[i].Key != got[i].Key || want[i].Index != got[i].Index {
			return fmt.Sprintf("entry %d: want (%d,%q), got (%d,%q)", i, want[i].Index, want[i].Key, got[i].Index, got[i].Key)
		}
		if d := vt.Diff(want[i].Value, got[i].Value, vt.CmpOpts{}); d != "" {
			return fmt.Sprintf("entry %d: %s", i, d)
		}
	}
	return ""
}

func body(c *vt.C, format string) (*dataset.Structure, []byte, []dsio.Entry) {
	var st *dataset.Structure
	var ents []dsio.Entry
	if format == "csv" {
		tb := dx.GenTable(c, dx.TableOpts{Str: vt.StrOpts{NoCR: true}, MaxCols: 3, MaxRows: 12, Depth: 1})
		st = dx.Noise(c, dx.CSVStructure(c, tb, false))
		ents = tb.Entries()
	} else {
		keyed := format != "ndjson" && vt.Bool(c.T, "keyed")
		st = dx.Noise(c, dx.St(format, "array", dx.Comp(c.T)))
		if keyed {
			st.Schema["type"] = "object"
		}
		ents = dx.Entries(c, keyed, 12, vt.ValOpts{Depth: 1})
	}
	data, err := dx.Write(st, ents)
	if err != nil {
		c.Fatalf("%v", err)
	}
	full, err := dx.Read(st, bytes.NewReader(data), len(ents)+2)
	if err != nil {
		c.Fatalf("%v", err)
	}
	return st, data, full
}

func file(st *dataset.Structure, data []byte) qfs.File {
	return qfs.NewMemfileBytes("body."+st.Format, data)
}

// cellBack is what a table cell reads back as in a format.
func cellBack(format, ty string, v interface{}) interface{} {
	if format != "csv" && format != "xlsx" {
		return v
	}
	if v == nil && ty != "null" {
		return ""
	}
	if v == "" && ty == "null" {
		return nil
	}
	return v
}

func convertTable(c *vt.C, xlsx bool) {
	formats := []string{"json", "cbor", "ndjson", "csv"}
	in := &dataset.Structure{Format: vt.One(c.T, "in", formats...)}
	out := &dataset.Structure{Format: vt.One(c.T, "out", formats...)}
	if xlsx {
		if vt.Bool(c.T, "fromXLSX") {
			in.Format = "xlsx"
		} else {
			out.Format = "xlsx"
		}
	}
	tb := dx.GenTable(c, dx.TableOpts{Str: vt.StrOpts{NoCR: true, XML: true, Max: 300}, MaxCols: 4, MaxRows: 10, Depth: 1})
	in.Schema, out.Schema = tb.Schema(), tb.Schema()
	if vt.Chance(c.T, 3, "cfg") {
		for _, st := range []*dataset.Structure{in, out} {
			switch st.Format {
			case "csv":
				st.FormatConfig = dx.Obj{"headerRow": true}
			case "json":
				st.FormatConfig = dx.Obj{"pretty": true}
			}
		}
	}
	if in.Format != "xlsx" {
		in.Compression = dx.Comp(c.T)
	}
	if out.Format != "xlsx" {
		out.Compression = dx.Comp(c.T)
	}
	data, err := dx.Write(in, tb.Entries())
	if err != nil {
		c.Fatalf("%v", err)
	}
	all := vt.Bool(c.T, "all")
	limit, offset := page(c, len(tb.Rows))
	var want []dsio.Entry
	for i, row := range tb.Rows {
		wr := make(dx.Arr, len(row))
		for j := range row {
			wr[j] = cellBack(out.Format, tb.Types[j], cellBack(in.Format, tb.Types[j], row[j]))
		}
		want = append(want, dsio.Entry{Index: i, Value: wr})
	}
	if !all {
		want = slice(want, limit, offset)
	}
	res, err := dsio.ConvertFile(file(in, data), in, out, limit, offset, all)
	if err != nil {
		c.Fatalf("%s to %s: %v", in.Format, out.Format, err)
	}
	if len(tb.Rows) > 1 {
		c.NonTrivial(data, out.Format, out.Compression, all, limit, offset)
	}
	c.Labelf("%s to %s", in.Format, out.Format)
	c.Sample("%s to %s all=%v limit %d offset %d: %q", in.Format, out.Format, all, limit, offset, res)
	got, err := dx.Read(out, bytes.NewReader(res), len(want)+2)
	if err != nil {
		c.Fatalf("%s to %s: reading %q: %v", in.Format, out.Format, vt.Trunc(string(res), 200), err)
	}
	if d := dx.DiffEntries(want, got, false, out.Format != "csv", vt.CmpOpts{}); d != "" {
		c.Fatalf("%s to %s (all=%v limit %d offset %d of %d): %s", in.Format, out.Format, all, limit, offset, len(tb.Rows), d)
	}
}

func convertObject(c *vt.C) {
	keyed := vt.Bool(c.T, "keyed")
	tlt := "array"
	if keyed {
		tlt = "object"
	}
	in := dx.Noise(c, dx.St(vt.One(c.T, "in", "json", "cbor"), tlt, dx.Comp(c.T)))
	out := dx.Noise(c, dx.St(vt.One(c.T, "out", "json", "cbor"), tlt, dx.Comp(c.T)))
	if vt.Bool(c.T, "pretty") {
		out.FormatConfig = dx.Obj{"pretty": true}
	}
	ents := dx.Entries(c, keyed, 8, vt.ValOpts{Depth: 2, Str: vt.StrOpts{Big: 5000}})
	data, err := dx.Write(in, ents)
	if err != nil {
		c.Fatalf("%v", err)
	}
	full, err := dx.Read(in, bytes.NewReader(data), len(ents)+2)
	if err != nil {
		c.Fatalf("%v", err)
	}
	all := vt.Bool(c.T, "all")
	limit, offset := page(c, len(full))
	want := full
	if !all {
		want = slice(full, limit, offset)
	}
	res, err := dsio.ConvertFile(file(in, data), in, out, limit, offset, all)
	if err != nil {
		c.Fatalf("%s to %s: %v", in.Format, out.Format, err)
	}
	if len(full) > 1 {
		c.NonTrivial(data, out.Format, all, limit, offset)
	}
	got, err := dx.Read(out, bytes.NewReader(res), len(want)+2)
	if err != nil {
		c.Fatalf("%s to %s: reading %q: %v", in.Format, out.Format, vt.Trunc(string(res), 200), err)
	}
	if keyed {
		want, got = dx.ByKey(want), dx.ByKey(got)
	} else {
		want = renumber(want)
	}
	if d := dx.DiffEntries(want, got, keyed, !keyed, vt.CmpOpts{}); d != "" {
		c.Fatalf("%s to %s (all=%v limit %d offset %d): %s", in.Format, out.Format, all, limit, offset, d)
	}
}

func outStructure(c *vt.C, schema dx.Obj) *dataset.Structure {
	return dx.Noise(c, &dataset.Structure{Format: vt.One(c.T, "out", "json", "cbor", "ndjson", "csv"), Schema: schema, Compression: dx.Comp(c.T)})
}

// unreadable: a source that is cut or malformed gives an error and no data.
func unreadable(c *vt.C) {
	tb := dx.GenTable(c, dx.TableOpts{Str: vt.StrOpts{NoCR: true, XML: true, Max: 100}, MaxCols: 3, MaxRows: 6, Depth: 1})
	in := dx.Noise(c, &dataset.Structure{Format: vt.One(c.T, "in", "json", "cbor", "ndjson", "csv"), Schema: tb.Schema()})
	in.Compression = vt.One(c.T, "comp", "", "", "gzip")
	data, err := dx.Write(in, tb.Entries())
	if err != nil {
		c.Fatalf("%v", err)
	}
	if in.Compression == "" && (in.Format == "csv" || in.Format == "ndjson") {
		if in.Format == "csv" {
			data = append(data, "\"unclosed"...)
		} else {
			data = append(data, "{\"unclosed\":"...)
		}
	} else {
		data = data[:vt.N(c.T, 0, len(data)-1, "cut")]
	}
	out := outStructure(c, tb.Schema())
	all := vt.Bool(c.T, "all")
	limit, offset := len(tb.Rows)+2+vt.N(c.T, 0, 5, "more"), vt.N(c.T, 0, len(tb.Rows), "offset")
	res, err := dsio.ConvertFile(file(in, data), in, out, limit, offset, all)
	if len(tb.Rows) > 1 {
		c.NonTrivial(data, out.Format, all, limit, offset)
	}
	c.Labelf("unreadable %s %s", in.Format, in.Compression)
	if err == nil {
		c.Fatalf("unreadable %s body %q converted to %s without error: %q", in.Format, vt.Trunc(string(data), 200), out.Format, vt.Trunc(string(res), 200))
	}
	if len(res) != 0 {
		c.Fatalf("conversion failed (%v) but returned %d bytes", err, len(res))
	}
}

// unwritable: an entry the target cannot hold gives an error and no data.
func unwritable(c *vt.C) {
	tb := dx.GenTable(c, dx.TableOpts{Str: vt.StrOpts{NoCR: true}, MaxCols: 3, MaxRows: 5, Depth: 1})
	in := dx.Noise(c, dx.St("json", "array", dx.Comp(c.T)))
	out := dx.Noise(c, &dataset.Structure{Format: "csv", Schema: tb.Schema(), Compression: dx.Comp(c.T)})
	ents := tb.Entries()
	at := vt.N(c.T, 0, len(ents), "at")
	bad := dsio.Entry{Value: vt.Scalar(c.T, vt.ValOpts{})}
	if vt.Bool(c.T, "obj") {
		bad.Value = dx.Obj{"a": int64(1)}
	}
	ents = append(ents[:at:at], append([]dsio.Entry{bad}, ents[at:]...)...)
	data, err := dx.Write(in, ents)
	if err != nil {
		c.Fatalf("%v", err)
	}
	all := vt.Bool(c.T, "all")
	limit, offset := page(c, len(ents))
	res, err := dsio.ConvertFile(file(in, data), in, out, limit, offset, all)
	hit := all || (offset <= at && at < offset+limit)
	if len(ents) > 1 {
		c.NonTrivial(data, all, limit, offset)
	}
	c.Labelf("unwritable entry in page=%v", hit)
	if hit && err == nil {
		c.Fatalf("entry %s is no row, yet converting to csv gave no error: %q", vt.Show(bad.Value), vt.Trunc(string(res), 200))
	}
	if hit && len(res) != 0 {
		c.Fatalf("conversion failed (%v) but returned %d bytes", err, len(res))
	}
	if !hit && err != nil {
		c.Fatalf("page without the unwritable entry: %v", err)
	}
}

// big pages into long bodies.
func big(c *vt.C) {
	n := vt.DictLen(c.T, 6000)
	if vt.Chance(c.T, 3, "many") {
		n = dx.ManyCount(c, 40000)
	}
	tb := &dx.Table{Cols: []dx.Obj{{"title": "a", "type": "string"}, {"title": "b", "type": "integer"}}}
	for i := 0; i < n; i++ {
		tb.Rows = append(tb.Rows, dx.Arr{fmt.Sprint("row ", i), int64(i)})
	}
	in := dx.Noise(c, &dataset.Structure{Format: vt.One(c.T, "in", "json", "cbor", "ndjson", "csv"), Schema: tb.Schema()})
	out := outStructure(c, tb.Schema())
	data, err := dx.Write(in, tb.Entries())
	if err != nil {
		c.Fatalf("%v", err)
	}
	limit, offset := page(c, n)
	res, err := dsio.ConvertFile(file(in, data), in, out, limit, offset, false)
	if err != nil {
		c.Fatalf("%v", err)
	}
	got, err := dx.Read(out, bytes.NewReader(res), n+2)
	if err != nil {
		c.Fatalf("%v", err)
	}
	c.NonTrivial(n, limit, offset, in.Format, out.Format)
	want := slice(tb.Entries(), limit, offset)
	if d := dx.DiffEntries(want, got, false, false, vt.CmpOpts{}); d != "" {
		c.Fatalf("%s to %s: limit %d offset %d of %d: %s", in.Format, out.Format, limit, offset, n, d)
	}
}
