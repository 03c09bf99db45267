package c12

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/stepfile"
	"verif/dx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a body (format, layout, compression, entries) or step file, written to a destination that fails at every byte offset of the fault-free output (or a sample of them when long), permanently or once; non-trivial = at least one entry or step and three or more bytes of output; distinct by output and failure mode")
}

func TestC12(t *testing.T) {
	for _, f := range []string{"json", "cbor", "csv", "ndjson"} {
		f := f
		vt.Check(t, f, 6000, 120000, func(c *vt.C) { formats(c, f, "") })
		vt.Check(t, f+"_gzip", 400, 8000, func(c *vt.C) { formats(c, f, "gzip") })
		vt.Check(t, f+"_zstd", 100, 2000, func(c *vt.C) { formats(c, f, "zstd") })
	}
	vt.Check(t, "json_pretty", 4000, 80000, func(c *vt.C) { formats(c, "jsonpretty", "") })
	vt.Check(t, "xlsx", 100, 2000, func(c *vt.C) { formats(c, "xlsx", "") })
	vt.Check(t, "big", 40, 800, big)
	vt.Check(t, "stepfile", 10000, 200000, steps)
	vt.Check(t, "compressor", 400, 8000, compressor)
}

type job struct {
	st     *dataset.Structure
	pretty string
	ents   []dsio.Entry
}

// run writes the job, going on after errors if told to, and gives the errors reported.
func (j *job) run(w io.Writer, goOn bool) (errs []error) {
	var ew dsio.EntryWriter
	var err error
	if j.pretty != "" {
		ew, err = dsio.NewJSONPrettyWriter(j.st, w, j.pretty)
	} else {
		ew, err = dsio.NewEntryWriter(j.st, w)
	}
	if err != nil {
		return []error{err}
	}
	for i, e := range j.ents {
		if err := ew.WriteEntry(e); err != nil {
			errs = append(errs, fmt.Errorf("entry %d: %w", i, err))
			if !goOn {
				break
			}
		}
	}
	if err := ew.Close(); err != nil {
		errs = append(errs, fmt.Errorf("close: %w", err))
	}
	return errs
}

func offsets(c *vt.C, n, all int) []int {
	var out []int
	if n <= all {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	for i := 0; i < 6; i++ {
		out = append(out, i, n-1-i)
	}
	for i := 0; i < all/3; i++ {
		out = append(out, vt.N(c.T, 0, n-1, "offset"))
	}
	return out
}

func formats(c *vt.C, format, comp string) {
	j := &job{}
	switch format {
	case "csv", "xlsx":
		tb := dx.GenTable(c, dx.TableOpts{Str: vt.StrOpts{NoCR: true, XML: true, Big: 300}, MaxCols: 4, MaxRows: 5, Depth: 1})
		j.st = dx.Noise(c, &dataset.Structure{Format: format, Compression: comp, Schema: tb.Schema()})
		if format == "csv" && vt.Bool(c.T, "header") {
			j.st.FormatConfig = dx.Obj{"headerRow": true}
		}
		j.ents = tb.Entries()
	default:
		keyed := format != "ndjson" && vt.Bool(c.T, "keyed")
		tlt := "array"
		if keyed {
			tlt = "object"
		}
		if format == "jsonpretty" {
			j.pretty = vt.One(c.T, "indent", " ", "  ", "\t")
			format = "json"
		}
		j.st = dx.Noise(c, dx.St(format, tlt, comp))
		j.ents = dx.Entries(c, keyed, 5, vt.ValOpts{Depth: 2, Str: vt.StrOpts{Big: 300}})
	}
	all := vt.Pick(120, 400)
	if format == "xlsx" {
		all = 15
	} else if comp != "" {
		all = 40
	}
	j.enumerate(c, all)
}

func (j *job) enumerate(c *vt.C, all int) {
	ref := &bytes.Buffer{}
	if errs := j.run(ref, false); errs != nil {
		if j.st.Format == "xlsx" {
			c.Skip("cell too long")
		}
		c.Fatalf("fault-free: %v", errs)
	}
	want := ref.Bytes()
	goOn, once, short := vt.Bool(c.T, "goOn"), vt.Bool(c.T, "once"), vt.Bool(c.T, "short")
	if len(j.ents) > 0 && len(want) > 2 {
		c.NonTrivial(want, goOn, once, short)
	}
	c.Sample("%s %s: %q", j.st.Format, j.st.Compression, want)
	c.Labelf("go on after errors=%v once=%v short=%v", goOn, once, short)
	for _, k := range offsets(c, len(want), all) {
		w := &vt.FaultWriter{Limit: k, Once: once, Short: short}
		errs := j.run(w, goOn)
		if w.Failed > 0 && len(errs) == 0 {
			c.Fatalf("%s (compression %q, indent %q): destination failed at byte %d of %d (once=%v) and no call reported it; destination holds %q",
				j.st.Format, j.st.Compression, j.pretty, k, len(want), once, vt.Trunc(string(w.Buf), 200))
		}
		if len(errs) == 0 && j.st.Format != "xlsx" {
			c.Fatalf("%s: every call succeeded, but the destination holds %d bytes of %d", j.st.Format, len(w.Buf), len(want))
		}
	}
	// room for exactly the body: nothing may fail and everything is there
	w := &vt.FaultWriter{Limit: len(want)}
	if j.st.Format == "xlsx" {
		w.Limit += 4096 // holds creation times
	}
	if errs := j.run(w, goOn); len(errs) != 0 {
		c.Fatalf("%s: destination with room for the whole body: %v", j.st.Format, errs)
	}
	if j.st.Format == "xlsx" {
		return
	}
	if !bytes.Equal(w.Buf, want) {
		c.Fatalf("%s: successful close, but the destination holds %q, want %q", j.st.Format, vt.Trunc(string(w.Buf), 200), vt.Trunc(string(want), 200))
	}
}

// big bodies are written in several internal flushes.
func big(c *vt.C) {
	j := &job{}
	format := vt.One(c.T, "format", "json", "cbor", "csv", "ndjson")
	comp := vt.One(c.T, "comp", "", "gzip", "zstd")
	tb := &dx.Table{Cols: []dx.Obj{{"title": "a", "type": "string"}, {"title": "b", "type": "integer"}}}
	j.st = dx.Noise(c, &dataset.Structure{Format: format, Compression: comp, Schema: tb.Schema()})
	seed := uint32(vt.N(c.T, 1, 1<<30, "seed"))
	for i := 0; i < 3000; i++ {
		var sb strings.Builder
		for k := 0; k < 40; k++ {
			seed = seed*1664525 + 1013904223
			sb.WriteByte("abcdefghijklmnopqrstuvwxyz012345"[seed>>27])
		}
		tb.Rows = append(tb.Rows, dx.Arr{sb.String(), int64(seed)})
	}
	j.ents = tb.Entries()
	j.enumerate(c, 12)
}

type fwStep struct {
	kind string
	text string
}

func (s fwStep) step() *dataset.TransformStep {
	switch s.kind {
	case "bytes":
		return &dataset.TransformStep{Script: []byte(s.text)}
	case "reader":
		return &dataset.TransformStep{Script: &vt.Chunked{Data: []byte(s.text), Plan: []int{5}}}
	case "strings.Reader":
		return &dataset.TransformStep{Script: strings.NewReader(s.text)}
	}
	return &dataset.TransformStep{Script: s.text}
}

func steps(c *vt.C) {
	n := vt.N(c.T, 0, 5, "steps")
	var in []fwStep
	var texts []string
	for i := 0; i < n; i++ {
		s := fwStep{vt.One(c.T, "kind", "string", "bytes", "reader", "strings.Reader"), vt.Str(c.T, vt.StrOpts{Big: 300})}
		in = append(in, s)
		texts = append(texts, s.text)
	}
	mk := func() (out []*dataset.TransformStep) {
		for _, s := range in {
			out = append(out, s.step())
		}
		return
	}
	want := strings.Join(texts, "\n---\n")
	once, short := vt.Bool(c.T, "once"), vt.Bool(c.T, "short")
	if n > 0 && len(want) > 2 {
		c.NonTrivial(want, once, short)
	}
	c.Sample("step file %q", want)
	for _, k := range offsets(c, len(want), vt.Pick(120, 400)) {
		w := &vt.FaultWriter{Limit: k, Once: once, Short: short}
		if err := stepfile.Write(mk(), w); err == nil {
			c.Fatalf("step file: destination failed at byte %d of %d (once=%v) and Write returned no error; destination holds %q of %q", k, len(want), once, w.Buf, want)
		}
	}
	w := &vt.FaultWriter{Limit: len(want)}
	if err := stepfile.Write(mk(), w); err != nil {
		c.Fatalf("step file: destination with room for all of %d bytes: %v", len(want), err)
	}
	if string(w.Buf) != want {
		c.Fatalf("step file: want %q, got %q", want, w.Buf)
	}
}

// compressor drives the compression writers directly.
func compressor(c *vt.C) {
	name := vt.One(c.T, "comp", "gzip", "gz", "zst", "zstd")
	data := vt.Bytes(c.T, 3000)
	part := vt.N(c.T, 1, 400, "part")
	run := func(w io.Writer) error {
		cw, err := compression.Compressor(name, w)
		if err != nil {
			return err
		}
		var first error
		for i := 0; i < len(data); i += part {
			end := i + part
			if end > len(data) {
				end = len(data)
			}
			if _, err := cw.Write(data[i:end]); err != nil && first == nil {
				first = err
			}
		}
		if err := cw.Close(); err != nil && first == nil {
			first = err
		}
		return first
	}
	ref := &bytes.Buffer{}
	if err := run(ref); err != nil {
		c.Fatalf("fault-free: %v", err)
	}
	if len(data) > 2 {
		c.NonTrivial(name, data, part)
	}
	once := vt.Bool(c.T, "once")
	for _, k := range offsets(c, ref.Len(), 40) {
		w := &vt.FaultWriter{Limit: k, Once: once}
		if err := run(w); err == nil && w.Failed > 0 {
			c.Fatalf("%s: destination failed at byte %d of %d (once=%v) and no call reported it", name, k, ref.Len(), once)
		}
	}
}
