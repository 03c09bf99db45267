package c11

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"io"
	"io/ioutil"
	"testing"

	"github.com/klauspost/compress/zstd"
	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/qfs"
	"verif/cx"
	"verif/dx"
	"verif/jx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = body of a format (with or without compression) and every cut position (or a sample of them for long bodies) or every position of a source I/O failure, each read to its end; non-trivial = body of at least one entry; distinct by body")
}

func TestC11(t *testing.T) {
	vt.Check(t, "cut_json", 2500, 80000, func(c *vt.C) { cuts(c, "json", "") })
	vt.Check(t, "cut_jsontext", 2500, 80000, cutText)
	vt.Check(t, "cut_cbor", 5000, 100000, func(c *vt.C) { cuts(c, "cbor", "") })
	vt.Check(t, "cut_cborany", 5000, 100000, cutCBOR)
	vt.Check(t, "cut_xlsx", 120, 2400, func(c *vt.C) { cuts(c, "xlsx", "") })
	for _, f := range []string{"json", "cbor", "csv", "ndjson"} {
		f := f
		vt.Check(t, "cut_gzip_"+f, 700, 14000, func(c *vt.C) { cuts(c, f, "gzip") })
		vt.Check(t, "cut_zstd_"+f, 250, 5000, func(c *vt.C) { cuts(c, f, "zstd") })
		vt.Check(t, "fault_"+f, 2000, 60000, func(c *vt.C) { faults(c, f, dx.Comp(c.T)) })
	}
	vt.Check(t, "fault_xlsx", 200, 4000, func(c *vt.C) { faults(c, "xlsx", "") })
	vt.Check(t, "big", 60, 1200, big)
	vt.Check(t, "stream", 400, 8000, stream)
}

type body struct {
	st   *dataset.Structure
	data []byte
	ents []dsio.Entry
	end  int // bytes up to and including the last significant one
}

// gen writes a body and learns its true entries by reading it whole.
func gen(c *vt.C, format, comp string, bigStr int) *body {
	b := &body{}
	var ents []dsio.Entry
	switch format {
	case "csv", "xlsx":
		tb := dx.GenTable(c, dx.TableOpts{Str: vt.StrOpts{NoCR: true, XML: true, Big: bigStr}, MaxCols: 4, MaxRows: 5, Depth: 1})
		b.st = dx.Noise(c, &dataset.Structure{Format: format, Compression: comp, Schema: tb.Schema()})
		if format == "csv" && vt.Bool(c.T, "header") {
			b.st.FormatConfig = dx.Obj{"headerRow": true}
		}
		ents = tb.Entries()
	default:
		keyed := format != "ndjson" && vt.Bool(c.T, "keyed")
		tlt := "array"
		if keyed {
			tlt = "object"
		}
		b.st = dx.Noise(c, dx.St(format, tlt, comp))
		ents = dx.Entries(c, keyed, 6, vt.ValOpts{Depth: 2, Str: vt.StrOpts{Big: bigStr}})
		if len(ents) > 50 {
			ents = ents[:50]
		}
	}
	var err error
	if b.data, err = dx.Write(b.st, ents); err != nil {
		if format == "xlsx" {
			c.Skip("cell too long")
		}
		c.Fatalf("%v", err)
	}
	b.finish(c)
	return b
}

func (b *body) finish(c *vt.C) {
	var err error
	if b.ents, err = dx.Read(b.st, bytes.NewReader(b.data), 1<<20); err != nil {
		c.Fatalf("whole body: %v", err)
	}
	b.end = len(b.data)
	if b.st.Format == "json" && b.st.Compression == "" {
		b.end = len(bytes.TrimRight(b.data, " \t\r\n"))
	}
	if len(b.ents) > 0 {
		c.NonTrivial(b.data)
	}
}

// positions enumerates cut positions below n, all of them for short bodies.
func positions(c *vt.C, n, all int) []int {
	var out []int
	if n <= all {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	for i := 0; i < 12; i++ {
		out = append(out, i, n-1-i)
	}
	for i := 0; i < all/4; i++ {
		out = append(out, vt.N(c.T, 0, n-1, "cut"))
	}
	return out
}

// check judges the outcome of reading the first k bytes.
func (b *body) check(c *vt.C, k int, what string, got []dsio.Entry, err error) {
	if err == nil {
		c.Fatalf("%s of %s body (compression %q) after byte %d of %d reads to a clean end with %d of %d entries: %q",
			what, b.st.Format, b.st.Compression, k, len(b.data), len(got), len(b.ents), vt.Trunc(string(b.data[:k]), 200))
	}
	keyed := b.st.Schema["type"] == "object"
	diff := func(n int) string {
		if n > len(b.ents) {
			return "more entries than the body has"
		}
		return dx.DiffEntries(b.ents[:n], got[:n], keyed, !keyed && b.st.Format != "csv", vt.CmpOpts{})
	}
	d := diff(len(got))
	if d == "" {
		return
	}
	if n := len(got) - 1; b.st.Format == "json" && diff(n) == "" && b.cutValue(k, got[n].Value) {
		c.Label("known finding: value at the cut")
		return
	}
	c.Fatalf("%s of %s body after byte %d of %d gives entries that are not in it: %s: %q", what, b.st.Format, k, len(b.data), d, vt.Trunc(string(b.data[:k]), 200))
}

// helper checks that a helper reading the whole body does not succeed either.
func (b *body) helper(c *vt.C, k int, what string, src io.Reader) {
	by := "ConvertFile"
	if k%8 == 3 {
		by = "ConvertFile of a page"
		_, err := dsio.ConvertFile(qfs.NewMemfileReader("body", src), b.st, &dataset.Structure{Format: "json", Schema: b.st.Schema}, len(b.ents)+2, k%5, false)
		b.helped(c, k, what, by, err)
		return
	}
	if k%8 == 7 {
		_, err := dsio.ConvertFile(qfs.NewMemfileReader("body", src), b.st, &dataset.Structure{Format: "json", Schema: b.st.Schema}, 0, 0, true)
		b.helped(c, k, what, by, err)
		return
	}
	r, err := dsio.NewEntryReader(b.st, src)
	if err != nil {
		return
	}
	defer r.Close()
	switch k % 4 {
	case 0:
		by = "ReadAll"
		_, err = dsio.ReadAll(r)
	case 1:
		by = "EachEntry"
		err = dsio.EachEntry(r, func(i int, _ dsio.Entry, err error) error { return err })
	default:
		by = "Copy"
		w, werr := dsio.NewJSONWriter(&dataset.Structure{Format: "json", Schema: b.st.Schema}, ioutil.Discard)
		if werr != nil {
			c.Fatalf("%v", werr)
		}
		err = dsio.Copy(r, w)
	}
	b.helped(c, k, what, by, err)
}

func (b *body) helped(c *vt.C, k int, what, by string, err error) {
	if err == nil {
		c.Fatalf("%s of %s body (compression %q) after byte %d of %d: %s succeeds: %q", what, b.st.Format, b.st.Compression, k, len(b.data), by, vt.Trunc(string(b.data[:k]), 200))
	}
}

// cutValue is the known finding: a JSON body that stops right after a separator (array
// bodies) or inside a number yields one entry for what is there before the error.
func (b *body) cutValue(k int, v interface{}) bool {
	switch v.(type) {
	case nil, int64, float64:
	default:
		return false
	}
	if b.st.Compression != "" {
		return v != nil || b.st.Schema["type"] == "array" // where the cut fell in the text is not visible here
	}
	cut := bytes.Trim(b.data[:k], " \t\r\n")
	if len(cut) == 0 {
		return false
	}
	last := cut[len(cut)-1]
	if v == nil {
		return b.st.Schema["type"] == "array" && (last == ',' || len(cut) == 1 && last == '[')
	}
	return bytes.IndexByte([]byte("0123456789+-.eE"), last) >= 0
}

func cuts(c *vt.C, format, comp string) {
	b := gen(c, format, comp, 300)
	c.Sample("%s %s: %q", format, comp, b.data)
	b.cutAll(c, vt.Pick(250, 600))
}

func (b *body) cutAll(c *vt.C, all int) {
	if b.st.Format == "xlsx" {
		all = vt.Pick(20, 60)
	}
	for _, k := range positions(c, b.end, all) {
		if k == 0 && b.st.Compression == "zstd" {
			continue // the empty stream is zstd's encoding of no content
		}
		src := &vt.Chunked{Data: b.data[:k]}
		if k%3 == 1 {
			src.Plan = []int{7}
		}
		var r io.Reader = src
		if k%5 == 3 || k < 9 && k%2 == 1 { // in the buffer it was cut in
			r = bytes.NewBuffer(append(make([]byte, 0, len(b.data)+64), b.data[:k]...))
		}
		got, err := dx.Read(b.st, r, len(b.ents)+2)
		b.check(c, k, "cut", got, err)
		b.helper(c, k, "cut", bytes.NewReader(b.data[:k]))
	}
}

// cutText cuts JSON texts written in any style.
func cutText(c *vt.C) {
	o := vt.ValOpts{Depth: 2, Str: vt.StrOpts{Big: 200}}
	b := &body{st: dx.St("json", "array", "")}
	var v interface{} = vt.Array(c.T, o, 5)
	if vt.Bool(c.T, "keyed") {
		b.st = dx.St("json", "object", "")
		v = vt.Object(c.T, o, 5)
	}
	b.data = jx.Join(c.T, jx.Tokens(c.T, v), 0, false)
	if !json.Valid(b.data) {
		c.Fatalf("vt: not JSON: %q", b.data)
	}
	b.finish(c)
	b.cutAll(c, vt.Pick(250, 600))
}

// cutCBOR cuts CBOR documents in any encoding.
func cutCBOR(c *vt.C) {
	o := vt.ValOpts{Depth: 2, Str: vt.StrOpts{Big: 200}, Bytes: true}
	e := &cx.Enc{T: c.T}
	b := &body{st: dx.St("cbor", "array", "")}
	if vt.Bool(c.T, "keyed") {
		b.st = dx.St("cbor", "object", "")
		e.Value(vt.Object(c.T, o, 5))
	} else {
		e.Value(vt.Array(c.T, o, 5))
	}
	b.data = e.B
	b.finish(c)
	b.cutAll(c, vt.Pick(250, 600))
}

func faults(c *vt.C, format, comp string) {
	b := gen(c, format, comp, 300)
	end := b.end
	all := vt.Pick(100, 300)
	if comp != "" {
		all = 25
	}
	if format == "xlsx" {
		all = 12
	}
	if comp == "" && format != "json" && format != "cbor" {
		end++ // a source that fails instead of ending
	}
	c.Labelf("faults in %s %s", format, comp)
	for _, k := range positions(c, end, all) {
		fault := vt.Fault(c.T)
		src := &vt.Chunked{Data: b.data[:k], Err: fault, EOFIn: k%2 == 1}
		if k%3 == 1 {
			src.Plan = []int{7}
		}
		got, err := dx.Read(b.st, src, len(b.ents)+2)
		b.check(c, k, "source failure", got, err)
		b.helper(c, k, "source failure", &vt.Chunked{Data: b.data[:k], Err: fault})
	}
}

// stream: compressed content of any kind that is cut, or whose source fails, is not
// complete, whoever wrote it.
func stream(c *vt.C) {
	name := vt.One(c.T, "name", "gzip", "gz", "zst", "zstd")
	in := vt.Bytes(c.T, 3000)
	if vt.Chance(c.T, 6, "long") {
		in = []byte(vt.BigStr(c.T, 200000))
	}
	buf := &bytes.Buffer{}
	switch {
	case vt.Bool(c.T, "ours"):
		w, err := compression.Compressor(name, buf)
		if err != nil {
			c.Fatalf("%v", err)
		}
		w.Write(in)
		w.Close()
	case name[0] == 'g':
		w, _ := gzip.NewWriterLevel(buf, vt.N(c.T, 0, 9, "level"))
		w.Write(in)
		w.Close()
	default:
		w, err := zstd.NewWriter(buf, zstd.WithEncoderLevel(zstd.EncoderLevel(vt.N(c.T, 1, 3, "level"))), zstd.WithSingleSegment(vt.Bool(c.T, "single")), zstd.WithEncoderConcurrency(1))
		if err != nil {
			c.Fatalf("vt: %v", err)
		}
		if buf2 := w.EncodeAll(in, nil); vt.Bool(c.T, "all") {
			buf.Write(buf2)
		} else {
			w.Write(in)
			w.Close()
		}
	}
	data := buf.Bytes()
	if len(in) > 0 {
		c.NonTrivial(name, data)
	}
	c.Labelf("stream %s", name)
	for _, k := range positions(c, len(data), 40) {
		src := &vt.Chunked{Data: data[:k], EOFIn: k%2 == 1}
		if vt.Bool(c.T, "fails") {
			src.Err = vt.Fault(c.T)
		} else if k == 0 && name[0] == 'z' {
			continue // the empty stream is zstd's encoding of no content
		}
		var r io.Reader = src
		if src.Err == nil && vt.Bool(c.T, "buffer") {
			r = bytes.NewBuffer(append([]byte{}, data[:k]...))
		}
		d, err := compression.Decompressor(name, r)
		if err != nil {
			continue
		}
		got, err := io.ReadAll(d)
		d.Close()
		if err == nil {
			c.Fatalf("%d of %d bytes of a %s stream, then %v, read to a clean end with %d of %d bytes", k, len(data), name, src.Err, len(got), len(in))
		}
		if !bytes.HasPrefix(in, got) {
			c.Fatalf("%d of %d bytes of a %s stream read as %d bytes that its content does not start with", k, len(data), name, len(got))
		}
	}
}

// big bodies exceed the internal buffers.
func big(c *vt.C) {
	format := vt.One(c.T, "format", "json", "cbor", "csv", "ndjson")
	comp := vt.One(c.T, "comp", "", "", "gzip", "zstd")
	if format == "csv" || format == "ndjson" {
		comp = vt.One(c.T, "comp2", "gzip", "zstd")
	}
	b := &body{st: dx.Noise(c, dx.St(format, "array", comp))}
	tb := &dx.Table{Cols: []dx.Obj{{"title": "a", "type": "string"}, {"title": "b", "type": "integer"}}}
	b.st.Schema = tb.Schema()
	for i := 0; i < 8000; i++ {
		tb.Rows = append(tb.Rows, dx.Arr{"some text that is long enough to fill buffers", int64(i*i + vt.N(c.T, 0, 1, "x")*0)})
	}
	var err error
	if b.data, err = dx.Write(b.st, tb.Entries()); err != nil {
		c.Fatalf("%v", err)
	}
	b.finish(c)
	c.NonTrivial(format, comp)
	for i := 0; i < 4; i++ {
		k := vt.N(c.T, 1, b.end-1, "cut")
		if vt.Bool(c.T, "late") {
			k = b.end - vt.N(c.T, 1, 40, "fromEnd")
		}
		got, err := dx.Read(b.st, bytes.NewReader(b.data[:k]), len(b.ents)+2)
		b.check(c, k, "cut", got, err)
		got, err = dx.Read(b.st, &vt.Chunked{Data: b.data[:k], Err: vt.Fault(c.T)}, len(b.ents)+2)
		b.check(c, k, "source failure", got, err)
	}
}
