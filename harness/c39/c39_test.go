package c39

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsdiff"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsio/replacecr"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/dataset/dstest"
	"github.com/qri-io/dataset/dsviz"
	"github.com/qri-io/dataset/generate"
	"github.com/qri-io/dataset/preview"
	"github.com/qri-io/dataset/stepfile"
	"github.com/qri-io/dataset/tabular"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/dataset/vals"
	"github.com/qri-io/qfs"
	"verif/dx"
	"verif/mx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = two to eight operations drawn from all packages, over bodies of several formats and over documents some of which they share, done one at a time on copies and then all at once; non-trivial = at least two operations over shared documents or of the same kind, or a body of two entries; distinct by operations and inputs")
}

func TestC39(t *testing.T) {
	vt.Check(t, "bodies", 2000, 60000, func(c *vt.C) { run(c, bodyJobs) })
	vt.Check(t, "documents", 4000, 80000, func(c *vt.C) { run(c, docJobs) })
	vt.Check(t, "interleaved", 3600, 100000, interleaved)
	vt.Check(t, "mixed", 2000, 40000, func(c *vt.C) { run(c, append(append([]string{}, bodyJobs...), docJobs...)) })
}

// machine is a reader, writer or buffer worked one step at a time.
type machine struct {
	name   string
	step   func() (bool, error) // false once there is nothing left to do
	result func() string
	done   bool
	err    error
}

func (b *body) machine(kind, k int) (*machine, error) {
	switch kind {
	case 0:
		r, err := dsio.NewEntryReader(b.st, &slow{append([]byte(nil), b.data...), 1 + k})
		if err != nil {
			return nil, err
		}
		var got []dsio.Entry
		return &machine{name: "reader", step: func() (bool, error) {
			e, err := r.ReadEntry()
			if err == io.EOF {
				return false, r.Close()
			}
			got = append(got, e)
			return err == nil && len(got) <= len(b.ents)+2, err
		}, result: func() string { return text(got, nil) }}, nil
	case 1, 2:
		var w dsio.EntryWriter
		var data func() []byte
		var err error
		if kind == 1 {
			buf := &bytes.Buffer{}
			w, err = dsio.NewEntryWriter(b.st, buf)
			data = buf.Bytes
		} else {
			var eb *dsio.EntryBuffer
			if eb, err = dsio.NewEntryBuffer(b.st); err == nil {
				w, data = eb, eb.Bytes
			}
		}
		if err != nil {
			return nil, err
		}
		i := 0
		return &machine{name: "writer", step: func() (bool, error) {
			if i == len(b.ents) {
				return false, w.Close()
			}
			i++
			return true, w.WriteEntry(b.ents[i-1])
		}, result: func() string {
			if b.st.Format == "xlsx" {
				return text(dx.Read(b.st, bytes.NewReader(data()), len(b.ents)+2))
			}
			return text(data(), nil)
		}}, nil
	}
	acc := dsstats.NewAccumulator(b.st)
	i := 0
	return &machine{name: "stats", step: func() (bool, error) {
		if i == len(b.ents) {
			return false, acc.Close()
		}
		i++
		return true, acc.WriteEntry(b.ents[i-1])
	}, result: func() string { return encode(dsstats.ToMap(acc), nil) }}, nil
}

func (m *machine) advance() {
	if m.done {
		return
	}
	more, err := m.step()
	m.done, m.err = !more || err != nil, err
}

// interleaved works several machines by turns, as drawn, in one goroutine.
func interleaved(c *vt.C) {
	var bods []*body
	for i, n := 0, vt.N(c.T, 1, 2, "bodies"); i < n; i++ {
		bods = append(bods, genBody(c))
	}
	n := vt.N(c.T, 2, 4, "machines")
	var ms []*machine
	var want []string
	var key []interface{}
	for i := 0; i < n; i++ {
		b, kind, k := bods[vt.N(c.T, 0, len(bods)-1, "body")], vt.N(c.T, 0, 3, "machine"), vt.N(c.T, 0, 40, "k")
		if (kind == 2 || kind == 3) && (b.st.Compression != "" || b.st.Format == "xlsx") {
			kind = 0 // buffers read what is not there yet
		}
		var alone *machine
		for round := 0; round < 2; round++ {
			m, err := b.machine(kind, k)
			if err != nil {
				c.Fatalf("%v", err)
			}
			if round == 0 {
				alone = m
				for !m.done {
					m.advance()
				}
				want = append(want, fmt.Sprint(m.result(), m.err))
			} else {
				ms = append(ms, m)
			}
		}
		c.Label(alone.name)
		key = append(key, b.data, kind, k)
	}
	turns := 0
	for open := n; open > 0; turns++ {
		m := ms[vt.N(c.T, 0, n-1, "turn")]
		for i, burst := 0, vt.N(c.T, 1, 4, "burst"); i < burst; i++ {
			if !m.done {
				m.advance()
				if m.done {
					open--
				}
			}
		}
		if turns > 60 { // let the rest finish by turns
			for _, m := range ms {
				for !m.done {
					m.advance()
				}
			}
			break
		}
	}
	for i, m := range ms {
		if got := fmt.Sprint(m.result(), m.err); got != want[i] {
			c.Fatalf("%s %d alone gave\n%s\nbut by turns\n%s", m.name, i, vt.Trunc(want[i], 3000), vt.Trunc(got, 3000))
		}
	}
	if turns > 2 {
		c.NonTrivial(key...)
	}
}

// world is what a set of operations works on.
type world struct {
	docs []*dataset.Dataset // shared, only looked at
	bods []*body            // structures shared, bytes shared
}

type body struct {
	st   *dataset.Structure
	out  *dataset.Structure // to convert to
	ents []dsio.Entry
	data []byte
}

func (w *world) copy() *world {
	n := &world{}
	for _, d := range w.docs {
		n.docs = append(n.docs, mx.Copy(d).(*dataset.Dataset))
	}
	for _, b := range w.bods {
		nb := &body{st: mx.Copy(b.st).(*dataset.Structure), out: mx.Copy(b.out).(*dataset.Structure), data: append([]byte(nil), b.data...)}
		for _, e := range b.ents {
			e.Value = vt.Clone(e.Value)
			nb.ents = append(nb.ents, e)
		}
		n.bods = append(n.bods, nb)
	}
	return n
}

func (w *world) String() string {
	var b strings.Builder
	for _, d := range w.docs {
		b.WriteString(mx.Sprint(d) + "\n")
	}
	for _, x := range w.bods {
		fmt.Fprintf(&b, "%s\n%s\n%#v\n%q\n", mx.Sprint(x.st), mx.Sprint(x.out), x.ents, x.data)
	}
	return b.String()
}

func genBody(c *vt.C) *body {
	format := vt.One(c.T, "format", "json", "csv", "cbor", "ndjson", "csv", "json", "xlsx")
	n := vt.N(c.T, 0, 24, "size")
	b := &body{}
	if format == "csv" || format == "xlsx" {
		tb := dx.GenTable(c, dx.TableOpts{Str: vt.StrOpts{NoCR: true, XML: true, Max: 30}, MaxCols: 4, MaxRows: 5, Depth: 1})
		b.st = dx.Noise(c, &dataset.Structure{Format: format, Schema: tb.Schema()})
		if format == "csv" {
			b.st = dx.CSVStructure(c, tb, false)
		}
		for i := 0; i < n && len(tb.Rows) > 0; i++ {
			b.ents = append(b.ents, dsio.Entry{Index: i, Value: tb.Rows[i%len(tb.Rows)]})
		}
		b.out = dx.Noise(c, &dataset.Structure{Format: vt.One(c.T, "out", "json", "cbor", "csv", "ndjson"), Schema: tb.Schema()})
	} else {
		keyed := format != "ndjson" && vt.Bool(c.T, "keyed")
		b.st = dx.Noise(c, dx.St(format, "array", dx.Comp(c.T)))
		if keyed {
			b.st.Schema["type"] = "object"
		}
		if format == "json" && vt.Bool(c.T, "pretty") {
			b.st.FormatConfig = dx.Obj{"pretty": true}
		}
		var vals []interface{}
		for i, k := 0, vt.N(c.T, 1, 4, "values"); i < k; i++ {
			vals = append(vals, vt.Value(c.T, vt.ValOpts{Depth: 2, Width: 3, Str: vt.StrOpts{Max: 60}}))
		}
		for i := 0; i < n; i++ {
			e := dsio.Entry{Index: i, Value: vals[i%len(vals)]}
			if i%3 == 1 {
				e.Value = i
			}
			if keyed {
				e.Key = fmt.Sprintf("k%d", (i*7919)%1009+i*1009)
			}
			b.ents = append(b.ents, e)
		}
		b.out = dx.St(vt.One(c.T, "out", "json", "cbor"), b.st.Schema["type"].(string), "")
	}
	data, err := dx.Write(b.st, b.ents)
	if err != nil {
		c.Fatalf("%v", err)
	}
	b.data = data
	return b
}

// slow hands out bytes in pieces and lets other goroutines run in between.
type slow struct {
	data []byte
	step int
}

func (s *slow) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	runtime.Gosched()
	n := s.step
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.data) {
		n = len(s.data)
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	return n, nil
}

// job is an operation with its inputs named by position.
type job struct {
	kind    string
	a, b, k int
}

var bodyJobs = []string{"read", "write", "convert", "identity", "buffer", "paged", "stats", "detect", "validate", "rowlengths", "replacecr", "preview", "viz", "generate", "vals", "compress", "step"}

var docJobs = []string{"json", "hash", "empty", "sign", "paths", "dscompare", "diff", "assign", "meta", "checksum", "columns", "vdoc", "parse", "json", "dscompare", "diff"}

func text(v interface{}, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return fmt.Sprintf("%#v", v)
}

func encode(v interface{}, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	data, err := json.Marshal(v)
	return string(data) + text(nil, err)
}

// parts are the components a dataset holds.
func parts(ds *dataset.Dataset) (out []interface{}) {
	for _, name := range []string{"Commit", "Meta", "Readme", "Stats", "Structure", "Transform", "Viz"} {
		if f := mx.Field(ds, name); !f.IsNil() {
			out = append(out, f.Interface())
		}
	}
	return append(out, ds)
}

// do performs a job in a world, and describes what came of it.
func (j job) do(w *world) string {
	b, d, e := w.bods[j.a%len(w.bods)], w.docs[j.a%len(w.docs)], w.docs[j.b%len(w.docs)]
	src := func() io.Reader { return &slow{append([]byte(nil), b.data...), 1 + j.k} }
	file := func() qfs.File { return qfs.NewMemfileBytes("body."+b.st.Format, append([]byte(nil), b.data...)) }
	max := len(b.ents) + 2
	switch j.kind {
	case "read":
		got, err := dx.Read(b.st, src(), max)
		return text(got, err)
	case "write":
		data, err := dx.Write(b.st, b.ents)
		if b.st.Format != "xlsx" || err != nil {
			return text(data, err)
		}
		got, err := dx.Read(b.st, bytes.NewReader(data), max)
		return text(got, err)
	case "convert":
		data, err := dsio.ConvertFile(file(), b.st, b.out, j.k%7, j.k%5, j.k%2 == 0)
		return text(data, err)
	case "identity":
		l := dx.Arr{}
		for _, e := range b.ents {
			l = append(l, e.Value)
		}
		r, err := dsio.NewIdentityReader(&dataset.Structure{Format: "json", Schema: dataset.BaseSchemaArray}, l)
		if err != nil {
			return text(nil, err)
		}
		got, err := dx.Drain(r, max)
		return text(got, err)
	case "buffer":
		buf, err := dsio.NewEntryBuffer(b.st)
		if err != nil {
			return text(nil, err)
		}
		for _, e := range b.ents {
			if err := buf.WriteEntry(e); err != nil {
				return text(nil, err)
			}
		}
		if err := buf.Close(); err != nil {
			return text(nil, err)
		}
		got, err := dx.Read(b.st, bytes.NewReader(buf.Bytes()), max)
		return text(got, err)
	case "paged":
		r, err := dsio.NewEntryReader(b.st, dsio.NewTrackedReader(src()))
		if err != nil {
			return text(nil, err)
		}
		defer r.Close()
		got, err := dx.Drain(&dsio.PagedReader{Reader: r, Limit: 1 + j.k%9, Offset: j.k % 4}, max)
		return text(got, err)
	case "stats":
		ds := &dataset.Dataset{Structure: b.st}
		ds.SetBodyFile(file())
		s, err := dsstats.Calculate(ds)
		return encode(s, err)
	case "detect":
		if j.k%2 == 0 {
			st, n, err := detect.FromReader(b.st.DataFormat(), compression.Format(""), bytes.NewReader(b.data))
			return fmt.Sprint(encode(st, err), n)
		}
		ds := &dataset.Dataset{}
		ds.SetBodyFile(file())
		err := detect.Structure(ds)
		return encode(ds.Structure, err)
	case "validate":
		r, err := dsio.NewEntryReader(b.st, src())
		if err != nil {
			return text(nil, err)
		}
		defer r.Close()
		errs, err := validate.EntryReader(r)
		return encode(errs, err)
	case "rowlengths":
		return text(nil, validate.CheckCsvRowLengths(src()))
	case "replacecr":
		data, err := io.ReadAll(replacecr.ReaderWithSize(src(), 16+j.k))
		return text(data, err)
	case "preview":
		ds := mx.Copy(d).(*dataset.Dataset)
		ds.Structure = b.st
		ds.Readme, ds.Transform, ds.Viz = nil, nil, nil
		ds.SetBodyFile(file())
		got, err := preview.Create(context.Background(), ds)
		if err != nil {
			return text(nil, err)
		}
		return text(got.Body, nil)
	case "viz":
		ds := &dataset.Dataset{Name: d.Name, Structure: b.st, Viz: &dataset.Viz{Format: "html"}}
		ds.SetBodyFile(file())
		ds.Viz.SetScriptFile(qfs.NewMemfileBytes("viz.html", []byte(`{{ block "foot" . }}{{ title }}{{ end }}{{ bodyEntries 0 4 }}{{ filesize 12345678 }}{{ ds.structure.format }}`)))
		f, err := dsviz.Render(ds)
		if err != nil {
			return text(nil, err)
		}
		data, err := io.ReadAll(f)
		return text(data, err)
	case "generate":
		st := b.st
		if st.Format != "csv" && st.Format != "xlsx" {
			st = &dataset.Structure{Format: "csv", Schema: tabular.BaseTabularSchema}
		}
		g, err := generate.NewTabularGenerator(st, generate.AssignSeed, generate.AssignMaxLen)
		if err != nil {
			return text(nil, err)
		}
		var got []dsio.Entry
		for i := 0; i < 1+j.k%5; i++ {
			e, err := g.ReadEntry()
			if err != nil {
				return text(got, err)
			}
			got = append(got, e)
		}
		return text(got, g.Close())
	case "vals":
		var out []string
		for _, e := range b.ents {
			data, err := json.Marshal(e.Value)
			if err != nil {
				return text(nil, err)
			}
			v, err := vals.UnmarshalJSON(data)
			if err != nil {
				return text(nil, err)
			}
			u, _ := vals.ConvertDecoded(e.Value)
			again, err := json.Marshal(v)
			out = append(out, string(again), text(nil, err), vals.ParseType(data).String(), fmt.Sprint(vals.Equal(u, v)))
		}
		return strings.Join(out, "\n")
	case "compress":
		name := []string{"gzip", "zst"}[j.k%2]
		buf := &bytes.Buffer{}
		cw, err := compression.Compressor(name, buf)
		if err != nil {
			return text(nil, err)
		}
		_, _ = io.Copy(cw, src())
		if err := cw.Close(); err != nil {
			return text(nil, err)
		}
		dr, err := compression.Decompressor(name, &slow{append([]byte(nil), buf.Bytes()...), 3 + j.k})
		if err != nil {
			return text(nil, err)
		}
		data, err := io.ReadAll(dr)
		dr.Close()
		return text(data, err)
	case "step":
		var steps []*dataset.TransformStep
		for i := 0; i < 1+j.k%4; i++ {
			steps = append(steps, &dataset.TransformStep{Name: fmt.Sprint("s", j.a, i), Syntax: "qri", Category: "c", Script: fmt.Sprint("use x as y", j.b)})
		}
		buf := &bytes.Buffer{}
		if err := stepfile.Write(steps, buf); err != nil {
			return text(nil, err)
		}
		got, err := stepfile.Read(buf)
		return encode(got, err)

	case "json":
		var out []string
		for _, p := range parts(d) {
			out = append(out, encode(p, nil))
			if o, ok := p.(interface{ MarshalJSONObject() ([]byte, error) }); ok {
				data, err := o.MarshalJSONObject()
				out = append(out, text(string(data), err))
			}
		}
		return strings.Join(out, "\n")
	case "hash":
		var out []string
		for _, p := range parts(d) {
			h, err := dataset.JSONHash(p.(json.Marshaler))
			out = append(out, text(h, err))
		}
		return strings.Join(out, "\n")
	case "empty":
		var out []string
		for _, p := range parts(d) {
			out = append(out, fmt.Sprint(mx.Empty(p), p.(interface{ IsEmpty() bool }).IsEmpty()))
		}
		return strings.Join(out, " ")
	case "sign":
		data, err := d.SignableBytes()
		return string(d.SigningBytes()) + text(string(data), err)
	case "paths":
		s := d.Structure
		if s == nil {
			s = b.st
		}
		return fmt.Sprintf("%#v %s %s %s %v %s", d.PathMap("body"), s.BodyFilename(), mx.Sprint(s.Abstract()), s.DataFormat(), s.RequiresTabularSchema(), encode(s.JSONSchema()))
	case "dscompare":
		return fmt.Sprint(dstest.CompareDatasets(d, e) == "", dstest.CompareMetas(d.Meta, e.Meta) == "", dstest.CompareStructures(d.Structure, e.Structure) == "", dstest.CompareCommits(d.Commit, e.Commit) == "")
	case "diff":
		m, err := dsdiff.DiffDatasets(d, e, nil)
		if err != nil {
			return text(nil, err)
		}
		s, err := dsdiff.MapDiffsToString(m, "listKeys")
		return text(s, err)
	case "assign":
		n := &dataset.Dataset{}
		n.Assign(d, e)
		return mx.Sprint(n)
	case "meta":
		if d.Meta == nil {
			return ""
		}
		n := &dataset.Meta{}
		n.Assign(d.Meta)
		return fmt.Sprintf("%#v %s", d.Meta.Meta(), mx.Sprint(n))
	case "checksum":
		return dstest.DatasetChecksum(d)
	case "columns":
		var out string
		for _, s := range []map[string]interface{}{schema(d), b.st.Schema, tabular.BaseTabularSchema} {
			cols, probs, err := tabular.ColumnsFromJSONSchema(s)
			out += encode(cols, err) + strings.Join(probs, ",")
		}
		return out
	case "vdoc":
		return text(nil, validate.Dataset(d)) + text(nil, validate.Structure(d.Structure)) + text(nil, validate.Commit(d.Commit))
	case "parse":
		data, err := d.MarshalJSON()
		if err != nil {
			return text(nil, err)
		}
		n := &dataset.Dataset{}
		if err := json.Unmarshal(data, n); err != nil {
			return text(nil, err)
		}
		return mx.Sprint(n)
	}
	panic(j.kind)
}

func schema(d *dataset.Dataset) map[string]interface{} {
	if d.Structure == nil {
		return nil
	}
	return d.Structure.Schema
}

func run(c *vt.C, kinds []string) {
	w := &world{}
	for i, n := 0, vt.N(c.T, 1, 3, "docs"); i < n; i++ {
		w.docs = append(w.docs, mx.Gen(c.T, "dataset", mx.Opts{Depth: 1}).(*dataset.Dataset))
	}
	if vt.Bool(c.T, "equalDoc") {
		w.docs = append(w.docs, mx.Copy(w.docs[0]).(*dataset.Dataset))
	}
	for i, n := 0, vt.N(c.T, 1, 3, "bodies"); i < n; i++ {
		w.bods = append(w.bods, genBody(c))
	}
	var jobs []job
	for i, n := 0, vt.N(c.T, 2, 8, "jobs"); i < n; i++ {
		jobs = append(jobs, job{kinds[vt.N(c.T, 0, len(kinds)-1, "kind")], vt.N(c.T, 0, 5, "a"), vt.N(c.T, 0, 5, "b"), vt.N(c.T, 0, 40, "k")})
	}
	if vt.Bool(c.T, "twin") { // the same operation twice at once
		jobs = append(jobs, jobs[0])
	}
	before := w.String()
	shared := w.copy() // nothing has looked at it yet
	want := make([]string, len(jobs))
	for i, j := range jobs {
		alone := w.copy()
		c.NoPanic(j.kind+" alone", func() { want[i] = j.do(alone) })
	}
	got := make([]string, len(jobs))
	panics := make([]string, len(jobs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 8192)
					panics[i] = fmt.Sprintf("%v\n%s", p, buf[:runtime.Stack(buf, false)])
				}
			}()
			<-start
			got[i] = j.do(shared)
		}(i, j)
	}
	c.Within("operations at once", func() { close(start); wg.Wait() })
	seen := map[string]bool{}
	same := false
	for i, j := range jobs {
		if panics[i] != "" {
			c.Fatalf("%s: panic among others: %s", j.kind, panics[i])
		}
		if got[i] != want[i] {
			c.Fatalf("%+v alone gave\n%s\nbut among others\n%s", j, vt.Trunc(want[i], 3000), vt.Trunc(got[i], 3000))
		}
		same = same || seen[j.kind]
		seen[j.kind] = true
		c.Label(j.kind)
	}
	if s := shared.String(); s != before {
		c.Fatalf("documents changed by operations that only look at them, from\n%s\nto\n%s", before, s)
	}
	if same || len(w.docs) == 1 || len(w.bods[0].ents) > 1 {
		c.NonTrivial(before, fmt.Sprint(jobs))
	}
	c.Sample("%v", jobs)
}
