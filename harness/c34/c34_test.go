package c34

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsviz"
	"github.com/qri-io/qfs"
	"verif/dx"
	"verif/jx"
	"verif/mx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	dsviz.PredefinedHTMLTemplates = map[string]string{
		"pre": `{{ block "foot" . }}<i>{{ title }}</i>{{ end }}`,
	}
	vt.Main(m, "case = a dataset with a body of drawn format and size and a template of drawn parts (pages, all entries, the document, sizes, types, title), rendered one to four times; or one that must be refused; non-trivial = at least two entries and one page; distinct by body, template and document")
}

func TestC34(t *testing.T) {
	vt.Check(t, "render", 6000, 120000, func(c *vt.C) { render(c, false) })
	vt.Check(t, "render_big", 150, 3000, func(c *vt.C) { render(c, true) })
	vt.Check(t, "sizes", 20000, 400000, sizes)
	vt.Check(t, "refuse", 4000, 160000, refuse)
}

func body(c *vt.C, big bool) (*dataset.Structure, []byte, []dsio.Entry) {
	n := vt.N(c.T, 0, 12, "entries")
	if vt.Chance(c.T, 4, "many") {
		n = vt.N(c.T, 0, 700, "manyEntries")
		if vt.Chance(c.T, 30, "veryMany") {
			n = vt.N(c.T, 700, 12000, "entries")
		}
	}
	format := vt.One(c.T, "format", "json", "cbor", "ndjson", "csv")
	pad := ""
	if big {
		n = vt.N(c.T, 100, 400, "bigEntries")
		pad = strings.Repeat(vt.One(c.T, "pad", "x", "é", "y "), vt.N(c.T, 500, 2500, "padLen"))
	}
	var st *dataset.Structure
	var ents []dsio.Entry
	if format == "csv" {
		tb := dx.GenTable(c, dx.TableOpts{Str: vt.StrOpts{NoCR: true, Max: 40}, MaxCols: 3, MaxRows: 4, Depth: 1})
		if big {
			tb.Cols = append(tb.Cols, dx.Obj{"title": "pad", "type": "string"})
		}
		st = dx.Noise(c, dx.CSVStructure(c, tb, false))
		for i := 0; i < n && len(tb.Rows) > 0; i++ {
			row := tb.Rows[i%len(tb.Rows)]
			if big {
				row = append(append(dx.Arr{}, row...), pad)
			}
			ents = append(ents, dsio.Entry{Index: i, Value: row})
		}
	} else {
		keyed := format != "ndjson" && vt.Bool(c.T, "keyed")
		st = dx.Noise(c, dx.St(format, "array", dx.Comp(c.T)))
		if keyed {
			st.Schema["type"] = "object"
		}
		var vals []interface{}
		for i, k := 0, vt.N(c.T, 1, 4, "values"); i < k; i++ {
			vals = append(vals, vt.Value(c.T, vt.ValOpts{Depth: 2, Width: 3, Str: vt.StrOpts{Max: 60}}))
		}
		if w := vt.Weight(vals) / len(vals); !big && n > 100000/(w+1) {
			n = 100000 / (w + 1) // few large values or many small ones
		}
		for i := 0; i < n; i++ {
			e := dsio.Entry{Index: i, Value: vals[i%len(vals)]}
			if i%3 == 0 {
				e.Value = i
			}
			if big {
				e.Value = []interface{}{pad, e.Value}
			}
			if keyed {
				e = dsio.Entry{Key: fmt.Sprintf("k%d", (i*7919)%1009+i*1009), Value: e.Value}
			}
			ents = append(ents, e)
		}
	}
	data, err := dx.Write(st, ents)
	if err != nil {
		c.Fatalf("%v", err)
	}
	full, err := dx.Read(st, bytes.NewReader(data), len(ents)+2)
	if err != nil {
		c.Fatalf("%v", err)
	}
	return st, data, full
}

func file(c *vt.C, name string, data []byte) qfs.File {
	if vt.Bool(c.T, "sized") {
		return qfs.NewMemfileBytes(name, append([]byte(nil), data...))
	}
	return qfs.NewMemfileReader(name, vt.Chunks(c, data))
}

// part is a piece of template with a check of what it rendered to.
type part struct {
	text  string
	check func(out string)
}

func entriesPart(c *vt.C, call string, keyed bool, want []dsio.Entry) part {
	return part{"<script>var x = {{ " + call + " }};</script>", func(out string) {
		out = strings.TrimPrefix(strings.TrimSpace(out), "<script>var x = ")
		out = strings.TrimSuffix(out, ";</script>")
		v, err := jx.Value([]byte(out))
		if err != nil {
			c.Fatalf("%s rendered as %s: %v", call, vt.Trunc(out, 200), err)
		}
		if keyed {
			m, ok := v.(map[string]interface{})
			if !ok || len(m) != len(want) {
				c.Fatalf("%s gave %d members (%T), want %d", call, len(m), v, len(want))
			}
			for _, e := range want {
				g, ok := m[e.Key]
				if !ok {
					c.Fatalf("%s misses %q", call, e.Key)
				}
				if d := vt.Diff(valid(e.Value), g, vt.CmpOpts{}); d != "" {
					c.Fatalf("%s: %q: %s", call, e.Key, d)
				}
			}
			return
		}
		l, ok := v.([]interface{})
		if !ok || len(l) != len(want) {
			c.Fatalf("%s gave %d entries (%T), want %d", call, len(l), v, len(want))
		}
		for i, e := range want {
			if d := vt.Diff(valid(e.Value), l[i], vt.CmpOpts{}); d != "" {
				c.Fatalf("%s: entry %d: %s", call, i, d)
			}
		}
	}}
}

// valid is a value as JSON can hold it.
func valid(v interface{}) interface{} {
	switch v := v.(type) {
	case string:
		return strings.ToValidUTF8(v, "\uFFFD")
	case []interface{}:
		out := make([]interface{}, len(v))
		for i := range v {
			out[i] = valid(v[i])
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, w := range v {
			out[strings.ToValidUTF8(k, "\uFFFD")] = valid(w)
		}
		return out
	}
	return v
}

func exact(c *vt.C, text, want string) part {
	return part{text, func(out string) {
		if out != want {
			c.Fatalf("%s rendered as %q, want %q", text, out, want)
		}
	}}
}

func slice(ents []dsio.Entry, offset, limit int) []dsio.Entry {
	if offset < 0 || limit < 0 {
		return ents
	}
	if offset >= len(ents) {
		return nil
	}
	ents = ents[offset:]
	if limit < len(ents) {
		ents = ents[:limit]
	}
	return ents
}

const mark = "\n<!---->\n<hr>\n"

func render(c *vt.C, big bool) {
	ds := mx.Gen(c.T, "dataset", mx.Opts{}).(*dataset.Dataset)
	ds.Peername, ds.Name = vt.One(c.T, "peer", "me", "b5", ""), vt.One(c.T, "name", "n", "data_set")
	st, data, full := body(c, big)
	keyed := st.Schema["type"] == "object"
	ds.Structure = st
	ds.SetBodyFile(file(c, "body."+st.Format, data))
	if ds.Viz == nil {
		ds.Viz = &dataset.Viz{}
	}
	ds.Viz.Format = "html"
	if ds.Meta != nil && ds.Meta.Title != "" {
		ds.Meta.Title = vt.One(c.T, "title", "A title", "t", "été")
	}
	title := ds.Peername + "/" + ds.Name
	if ds.Meta != nil && ds.Meta.Title != "" {
		title = ds.Meta.Title
	}

	doc, err := json.Marshal(ds)
	if err != nil {
		c.Fatalf("%v", err)
	}
	docV, err := jx.Value(doc)
	if err != nil {
		c.Fatalf("%v", err)
	}

	// a block of the predefined templates may be defined anew by the template
	own, foot := vt.Chance(c.T, 4, "ownBlock"), "<i>"+title+"</i>"
	if own {
		foot = "<u>own</u>"
	}
	var parts []part
	pages := 0
	maxParts := 5
	if big {
		maxParts = 3
	}
	for i, n := 0, vt.N(c.T, 1, maxParts, "parts"); i < n; i++ {
		switch vt.N(c.T, 0, 10, "part") {
		case 0, 1, 2, 3:
			off, lim := vt.N(c.T, -1, len(full)+2, "offset"), vt.N(c.T, -1, len(full)+2, "limit")
			if vt.Bool(c.T, "near") {
				off, lim = vt.N(c.T, 0, 3, "offset"), vt.N(c.T, 0, 3, "limit")
			}
			parts = append(parts, entriesPart(c, fmt.Sprintf("bodyEntries %d %d", off, lim), keyed, slice(full, off, lim)))
			pages++
		case 4:
			parts = append(parts, entriesPart(c, "allBodyEntries", keyed, full))
			pages++
		case 5:
			parts = append(parts, part{"<script>var x = {{ ds }};</script>", func(out string) {
				out = strings.TrimSuffix(strings.TrimPrefix(out, "<script>var x = "), ";</script>")
				v, err := jx.Value([]byte(out))
				if err != nil {
					c.Fatalf("document rendered as %s: %v", vt.Trunc(out, 300), err)
				}
				if d := vt.Diff(docV, v, vt.CmpOpts{}); d != "" {
					c.Fatalf("document: %s", d)
				}
			}})
		case 6:
			parts = append(parts, exact(c, "<b>{{ title }}</b>", "<b>"+title+"</b>"))
		case 7:
			parts = append(parts, exact(c, `{{ range $i, $e := bodyEntries 0 2 }}[{{ isType $e "object" }}{{ isType $e "array" }}{{ isType $e "string" }}{{ isType $e "number" }}{{ isType $e "boolean" }}]{{ end }}`, types(full, keyed)))
			pages++
		case 8:
			if vt.Bool(c.T, "predefined") {
				parts = append(parts, exact(c, vt.One(c.T, "block", `{{ template "foot" . }}`, `{{ template "pre" . }}`), foot))
			} else {
				parts = append(parts, exact(c, "{{ .Name }}|{{ .Structure.Format }}", ds.Name+"|"+st.Format))
			}
		case 9:
			parts = append(parts, exact(c, "{{ len allBodyEntries }}", fmt.Sprint(len(full))))
			pages++
		case 10: // values that templates themselves produce
			parts = append(parts, vt.From(c.T, "constant", []part{
				exact(c, `{{ isType 5 "number" }}`, "true"),
				exact(c, `{{ isType (len "abc") "number" }}`, "true"),
				exact(c, `{{ isType 5.5 "number" }}`, "true"),
				exact(c, `{{ isType 5 "string" }}`, "false"),
				exact(c, `{{ isType "5" "number" }}`, "false"),
				exact(c, `{{ isType true "boolean" }}{{ isType "true" "boolean" }}`, "truefalse"),
				exact(c, `{{ isType ds "object" }}{{ isType ds "array" }}`, "truefalse"),
			}))
		}
	}
	var tmpl string
	for _, p := range parts {
		tmpl += p.text + mark
	}
	if own {
		tmpl += `{{ define "foot" }}<u>own</u>{{ end }}`
	}
	ds.Viz.SetScriptFile(file(c, "tmpl.html", []byte(tmpl)))
	snap := mx.Copy(ds)

	first := ""
	times := vt.N(c.T, 1, 4, "times")
	if big {
		times = min(times, 2)
	}
	for i := 0; i < times; i++ {
		var f qfs.File
		var err error
		c.NoPanic("render", func() { f, err = dsviz.Render(ds) })
		if err != nil {
			c.Fatalf("render %d of %q over %d %s entries: %v", i+1, tmpl, len(full), st.Format, err)
		}
		outb, err := io.ReadAll(f)
		if err != nil {
			c.Fatalf("%v", err)
		}
		out := string(outb)
		if i == 0 {
			first = out
			// the comment between the parts is dropped by the template engine
			pieces := strings.Split(out, "\n\n<hr>\n")
			if len(pieces) != len(parts)+1 {
				c.Fatalf("%d pieces rendered from %d parts: %q", len(pieces), len(parts), vt.Trunc(out, 400))
			}
			for j, p := range parts {
				p.check(pieces[j])
			}
		} else if out != first {
			c.Fatalf("render %d of %q differs from the first: %q, was %q", i+1, tmpl, vt.Trunc(out, 300), vt.Trunc(first, 300))
		}
	}
	if d := mx.Diff(snap, ds, mx.DiffOpts{}); d != "" {
		c.Fatalf("rendering changed the dataset: %s", d)
	}
	whole(c, ds.Viz.ScriptFile(), []byte(tmpl), "template")
	whole(c, ds.BodyFile(), data, "body")
	c.Labelf("%s keyed=%v pages=%d times=%d", st.Format, keyed, min(pages, 3), times)
	if len(full) > 1 && pages > 0 {
		c.NonTrivial(data, tmpl, mx.Sprint(snap))
	}
	c.Sample("%s over %d-byte %s body of %d entries, %d times", strings.ReplaceAll(tmpl, mark, " "), len(data), st.Format, len(full), times)
}

func types(full []dsio.Entry, keyed bool) (s string) {
	ents := slice(full, 0, 2)
	if keyed {
		ents = dx.ByKey(ents) // templates range over maps by key
	}
	for _, e := range ents {
		var is [5]bool
		switch e.Value.(type) {
		case map[string]interface{}:
			is[0] = true
		case []interface{}:
			is[1] = true
		case string:
			is[2] = true
		case int, int64, float64:
			is[3] = true
		case bool:
			is[4] = true
		}
		s += "["
		for _, b := range is {
			s += fmt.Sprint(b)
		}
		s += "]"
	}
	return s
}

func whole(c *vt.C, f qfs.File, want []byte, what string) {
	if f == nil {
		c.Fatalf("the %s file is gone", what)
	}
	data, err := io.ReadAll(f)
	if err != nil {
		c.Fatalf("reading the %s file after rendering: %v", what, err)
	}
	if !bytes.Equal(data, want) {
		c.Fatalf("after rendering the %s file delivers %d bytes, want %d", what, len(data), len(want))
	}
}

func sizes(c *vt.C) {
	n := vt.N(c.T, 0, 2000, "n")
	if vt.Bool(c.T, "scaled") {
		n = vt.N(c.T, 0, 1200, "k")<<(10*vt.N(c.T, 0, 4, "unit")) + vt.N(c.T, -2, 2, "off")
	}
	if n < 0 || n > 1<<52 {
		n = 0
	}
	units := []string{"byte", "KB", "MB", "GB", "TB", "PB"}
	u, v := 0, n
	for v >= 1024 && u < len(units)-1 {
		v /= 1024
		u++
	}
	want := fmt.Sprintf("%d %s", v, units[u])
	if v != 1 {
		want += "s"
	}
	ds := &dataset.Dataset{Name: "n", Structure: &dataset.Structure{Format: "json", Length: n, Schema: dx.Obj{"type": "array"}}, Viz: &dataset.Viz{Format: "html"}}
	ds.Viz.SetScriptFile(qfs.NewMemfileBytes("t", []byte("{{ filesize ds.structure.length }}")))
	if n == 0 {
		ds.Viz.SetScriptFile(qfs.NewMemfileBytes("t", []byte("{{ filesize 0.0 }}")))
	}
	f, err := dsviz.Render(ds)
	if err != nil {
		c.Fatalf("%v", err)
	}
	out, _ := io.ReadAll(f)
	if string(out) != want {
		c.Fatalf("size %d rendered as %q, want %q", n, out, want)
	}
	c.Label("size in " + units[u])
	if n > 1 {
		c.NonTrivial(n)
	}
}

func refuse(c *vt.C) {
	ds := mx.Gen(c.T, "dataset", mx.Opts{}).(*dataset.Dataset)
	st, data, full := body(c, false)
	ds.Structure = st
	ds.SetBodyFile(file(c, "body", data))
	ds.Viz = &dataset.Viz{Format: "html"}
	tmpl := "{{ len (bodyEntries 0 3) }}"
	how := vt.N(c.T, 0, 9, "how")
	if how == 3 || how == 5 || how == 6 {
		tmpl = vt.One(c.T, "use", tmpl, "{{ bodyEntries 0 3 }}", "{{ allBodyEntries }}", "{{ len allBodyEntries }}", "{{ with bodyEntries 0 3 }}x{{ end }}", "{{ bodyEntries -1 3 }}")
	}
	var whole1 []byte
	switch how {
	case 0:
		ds.Viz = nil
	case 1:
		ds.Viz.Format = vt.One(c.T, "other", "", "HTML", "text", "htm", "html ", "pdf")
	case 2:
		tmpl = vt.One(c.T, "broken", "{{", "{{ nope }}", "{{ if }}", "{{ end }}", "{{ bodyEntries 1 }}", "{{ template \"missing\" . }}", "{{ .Nope }}", `{{ isType 1 "integer" }}`, "{{ range }}", `<a href="{{ if true }}">{{ end }}<b>`)
	case 3: // malformed body
		st.Format, st.Compression, st.FormatConfig, st.Schema = "json", "", nil, dx.Obj{"type": "array"}
		whole1 = []byte(vt.One(c.T, "bad", "", "[", `["a`, "{}", "[1,tru]", "nope", `["a" "b"]`))
		ds.SetBodyFile(file(c, "body", whole1))
	case 4: // the body source fails
		if len(full) > 50 || len(data) == 0 {
			return
		}
		ch := vt.Chunks(c, data[:vt.N(c.T, 0, len(data)-1, "cut")])
		ch.Err = vt.ErrFault
		ds.SetBodyFile(qfs.NewMemfileReader("body", ch))
		tmpl = "{{ len allBodyEntries }}"
	case 5:
		ds.Structure = nil
	case 6:
		switch vt.N(c.T, 0, 3, "unusable") {
		case 0:
			st.Format = "nope"
		case 1:
			st.Schema = nil
		case 2:
			st.Schema = dx.Obj{"type": "string"}
		case 3:
			st.Compression = "nope"
		}
	case 7: // no template
	case 8: // the template source fails
	case 9: // the dataset has no document form
		ds.Structure.FormatConfig = dx.Obj{"x": vt.From(c.T, "unencodable", []interface{}{make(chan int), func() {}, math.NaN()})}
		tmpl = vt.One(c.T, "useDoc", "{{ ds }}", "{{ title }}", "x")
	}
	if ds.Viz != nil && how != 7 {
		ch := vt.Chunks(c, []byte(tmpl))
		if how == 8 {
			ch.Err = vt.ErrFault
		}
		ds.Viz.SetScriptFile(qfs.NewMemfileReader("t", ch))
	}
	var err error
	c.NoPanic("render", func() { _, err = dsviz.Render(ds) })
	if err == nil {
		c.Fatalf("render succeeded (%d) %q", how, tmpl)
	}
	if whole1 != nil {
		whole(c, ds.BodyFile(), whole1, "malformed body")
	}
	if how != 0 && how != 7 && how != 8 {
		whole(c, ds.Viz.ScriptFile(), []byte(tmpl), "template")
	}
	c.Labelf("refused %d", how)
	c.NonTrivial(how, data, tmpl)
}
