package c27

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/validate"
	"github.com/qri-io/jsonschema"
	"verif/dx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a body in a drawn format whose entries satisfy or break a drawn entry schema at planted places, a cut body, or a name, commit, structure or CSV text to check; non-trivial = a body with a planted violation and a satisfying entry, or a check at the edge of what is allowed; distinct by body and schema")
}

func TestC27(t *testing.T) {
	vt.Check(t, "body", 12000, 240000, func(c *vt.C) { body(c, false) })
	vt.Check(t, "batches", 150, 2500, func(c *vt.C) { body(c, true) })
	vt.Check(t, "unreadable", 6000, 120000, unreadable)
	vt.Check(t, "names", 20000, 300000, names)
	vt.Check(t, "components", 10000, 150000, components)
	vt.Check(t, "rows", 20000, 300000, rows)
}

// kind is an entry schema with entries that satisfy and entries that break it.
type kind struct {
	schema dx.Obj
	good   func() interface{}
	bad    func() interface{}
}

func pick(c *vt.C, xs ...interface{}) interface{} {
	return vt.Clone(xs[vt.N(c.T, 0, len(xs)-1, "pick")])
}

func scalarKind(c *vt.C, csv bool) kind {
	n := 6
	if csv {
		n = 3
	}
	switch vt.N(c.T, 0, n, "kind") {
	case 0:
		lo := vt.N(c.T, -5, 5, "lo")
		hi := lo + vt.N(c.T, 0, 9, "range")
		return kind{dx.Obj{"type": "integer", "minimum": lo, "maximum": hi},
			func() interface{} { return int64(vt.N(c.T, lo, hi, "in")) },
			func() interface{} { return pick(c, "word", int64(lo-1), int64(hi+1), "") }}
	case 1:
		return kind{dx.Obj{"type": "number"},
			func() interface{} { return float64(vt.N(c.T, -99, 99, "num")) + 0.5 },
			func() interface{} { return pick(c, "word", "", "1.x") }}
	case 2:
		return kind{dx.Obj{"type": "boolean"},
			func() interface{} { return vt.Bool(c.T, "bool") },
			func() interface{} { return pick(c, "word", "", "truth", "nope") }}
	case 3:
		lo := vt.N(c.T, 0, 3, "minLen")
		hi := lo + vt.N(c.T, 0, 4, "lenRange")
		return kind{dx.Obj{"type": "string", "minLength": lo, "maxLength": hi},
			func() interface{} { return strings.Repeat("x", vt.N(c.T, lo, hi, "len")) },
			func() interface{} {
				if lo > 0 && vt.Bool(c.T, "short") {
					return strings.Repeat("x", lo-1)
				}
				return strings.Repeat("x", hi+1)
			}}
	case 4:
		return kind{dx.Obj{"enum": dx.Arr{"a", "b", 3}},
			func() interface{} { return pick(c, "a", "b", int64(3)) },
			func() interface{} { return pick(c, "c", int64(4), nil, true) }}
	case 5:
		return kind{dx.Obj{"type": "null"},
			func() interface{} { return nil },
			func() interface{} { return pick(c, "c", int64(0), false, dx.Arr{}) }}
	}
	return kind{dx.Obj{"type": dx.Arr{"string", "integer"}},
		func() interface{} { return pick(c, "c", int64(0), "", int64(-4)) },
		func() interface{} { return pick(c, nil, true, 1.5, dx.Arr{}, dx.Obj{}) }}
}

func rowKind(c *vt.C, csv bool) kind {
	n := vt.N(c.T, 1, 4, "cols")
	var ks []kind
	var items dx.Arr
	for i := 0; i < n; i++ {
		k := scalarKind(c, csv)
		k.schema["title"] = fmt.Sprintf("col_%d", i)
		ks = append(ks, k)
		items = append(items, k.schema)
	}
	row := func(badAt int) interface{} {
		out := dx.Arr{}
		for i, k := range ks {
			if i == badAt {
				out = append(out, k.bad())
			} else {
				out = append(out, k.good())
			}
		}
		return out
	}
	return kind{dx.Obj{"type": "array", "items": items},
		func() interface{} { return row(-1) },
		func() interface{} {
			if !csv && vt.Chance(c.T, 5, "notARow") {
				return pick(c, nil, "row", int64(1), dx.Obj{"a": 1.5})
			}
			return row(vt.N(c.T, 0, n-1, "badAt"))
		}}
}

func entryKind(c *vt.C) kind {
	switch vt.N(c.T, 0, 3, "entryKind") {
	case 0:
		return scalarKind(c, false)
	case 1:
		return rowKind(c, false)
	case 2:
		k := scalarKind(c, false)
		for i := vt.N(c.T, 1, 7, "levels"); i > 0; i-- {
			in := k
			if vt.Bool(c.T, "list") {
				k = kind{dx.Obj{"type": "array", "items": in.schema},
					func() interface{} { return dx.Arr{in.good(), in.good()} },
					func() interface{} { return dx.Arr{in.good(), in.bad()} }}
			} else {
				k = kind{dx.Obj{"type": "object", "properties": dx.Obj{"in": in.schema}},
					func() interface{} { return dx.Obj{"in": in.good()} },
					func() interface{} { return dx.Obj{"in": in.bad()} }}
			}
		}
		return k
	}
	a, b := scalarKind(c, false), scalarKind(c, false)
	return kind{dx.Obj{"type": "object", "required": dx.Arr{"a"}, "properties": dx.Obj{"a": a.schema, "b": b.schema}},
		func() interface{} {
			o := dx.Obj{"a": a.good()}
			if vt.Bool(c.T, "withB") {
				o["b"] = b.good()
			}
			return o
		},
		func() interface{} {
			switch vt.N(c.T, 0, 3, "badObj") {
			case 0:
				return dx.Obj{"b": b.good()}
			case 1:
				return dx.Obj{"a": a.good(), "b": b.bad()}
			case 2:
				return dx.Obj{"a": a.bad()}
			}
			return pick(c, nil, "o", dx.Arr{}, int64(3))
		}}
}

func size(c *vt.C, big bool) int {
	if !big {
		return vt.N(c.T, 0, 12, "entries")
	}
	k := 5000 * vt.N(c.T, 1, 3, "batches")
	if vt.Chance(c.T, 8, "manyBatches") {
		k = 5000 * vt.U(c.T, 4, 14, "batches")
	}
	return k + vt.N(c.T, -2, 2, "around")
}

// draw makes entries, plants violations and gives the places where they are.
func draw(c *vt.C, k kind, n int, keyed, big bool) ([]dsio.Entry, map[string]bool) {
	var pool []interface{}
	if big { // few drawn entries, used many times
		for i := 0; i < 4; i++ {
			pool = append(pool, k.good())
		}
	}
	bad := map[int]bool{}
	if big && vt.Chance(c.T, 6, "allBad") {
		for i := 0; i < n; i++ {
			bad[i] = true
		}
	} else if big {
		for i, nv := 0, vt.N(c.T, 0, 6, "violations"); i < nv; i++ {
			at := vt.U(c.T, 0, max(3, n/5000), "batch")*5000 + vt.N(c.T, -2, 2, "offset")
			if vt.Chance(c.T, 3, "anywhere") {
				at = vt.N(c.T, 0, n-1, "at")
			}
			if at >= 0 && at < n {
				bad[at] = true
			}
		}
	} else {
		for i := 0; i < n; i++ {
			if vt.Chance(c.T, 3, "bad") {
				bad[i] = true
			}
		}
	}
	places := map[string]bool{}
	keys := vt.One(c.T, "keys", "k%d", "%d", "%d0", "0%d", "-%d", "%d.5")
	var out []dsio.Entry
	for i := 0; i < n; i++ {
		e := dsio.Entry{Index: i}
		if keyed {
			e = dsio.Entry{Key: fmt.Sprintf(keys, i)}
		}
		switch {
		case bad[i]:
			e.Value = k.bad()
			p := strconv.Itoa(i)
			if keyed {
				p = e.Key
			}
			places[p] = true
		case big:
			e.Value = pool[i%len(pool)]
		default:
			e.Value = k.good()
		}
		out = append(out, e)
	}
	return out, places
}

func place(p string) string {
	p = strings.TrimPrefix(p, "/")
	if i := strings.Index(p, "/"); i >= 0 {
		p = p[:i]
	}
	return p
}

func texts(errs []jsonschema.KeyError) []string {
	var out []string
	for _, e := range errs {
		out = append(out, e.PropertyPath+" "+e.Message+" "+vt.Show(e.InvalidValue))
	}
	sort.Strings(out)
	return out
}

func makeBody(c *vt.C, big bool) (*dataset.Structure, []dsio.Entry, map[string]bool, []byte) {
	format := vt.One(c.T, "format", "json", "json", "cbor", "ndjson", "csv")
	if big {
		format = vt.One(c.T, "bigFormat", "csv", "ndjson", "json", "cbor")
	}
	keyed := (format == "json" || format == "cbor") && vt.Bool(c.T, "keyed")
	var k kind
	if format == "csv" {
		k = rowKind(c, true)
	} else {
		k = entryKind(c)
	}
	st := dx.NoiseFields(c, &dataset.Structure{Format: format, Compression: dx.Comp(c.T), Schema: dx.Obj{"type": "array", "items": k.schema}})
	if keyed {
		st.Schema = dx.Obj{"type": "object", "additionalProperties": k.schema}
	}
	if format == "csv" && vt.Bool(c.T, "header") {
		st.FormatConfig = dx.Obj{"headerRow": true}
	}
	ents, places := draw(c, k, size(c, big), keyed, big)
	data, err := dx.Write(st, ents)
	if err != nil {
		c.Fatalf("write %v: %v", st.Schema, err)
	}
	return st, ents, places, data
}

func body(c *vt.C, big bool) {
	st, ents, places, data := makeBody(c, big)
	r, err := dsio.NewEntryReader(st, vt.Chunks(c, data))
	if err != nil {
		c.Fatalf("reader: %v", err)
	}
	schemaBefore, _ := json.Marshal(st.Schema)
	errs, err := validate.EntryReader(r)
	if err != nil {
		c.Fatalf("validating %s %s: %v", st.Format, vt.Trunc(fmt.Sprint(ents), 200), err)
	}
	if after, _ := json.Marshal(st.Schema); !bytes.Equal(schemaBefore, after) {
		c.Fatalf("validation changed the schema to %s", after)
	}
	got := map[string]bool{}
	for _, e := range errs {
		got[place(e.PropertyPath)] = true
	}
	for p := range places {
		if !got[p] {
			c.Fatalf("%s: entry %s of %d breaks %s but no error names it: %v", st.Format, p, len(ents), schemaBefore, vt.Trunc(fmt.Sprint(texts(errs)), 600))
		}
	}
	for p := range got {
		if !places[p] {
			c.Fatalf("%s: error for entry %q of %d, which satisfies %s: %v", st.Format, p, len(ents), schemaBefore, vt.Trunc(fmt.Sprint(texts(errs)), 600))
		}
	}
	// the same as the whole document at once
	read, err := dx.Read(st, bytes.NewReader(data), len(ents)+5)
	if err != nil || len(read) != len(ents) {
		c.Fatalf("reading back %d of %d: %v", len(read), len(ents), err)
	}
	var doc interface{}
	if st.Schema["type"] == "object" {
		o := dx.Obj{}
		for _, e := range read {
			o[e.Key] = e.Value
		}
		doc = o
	} else {
		a := dx.Arr{}
		for _, e := range read {
			a = append(a, e.Value)
		}
		doc = a
	}
	plain, _ := json.Marshal(doc)
	var jdoc interface{}
	_ = json.Unmarshal(plain, &jdoc)
	sch := &jsonschema.Schema{}
	if err := json.Unmarshal(schemaBefore, sch); err != nil {
		c.Fatalf("schema: %v", err)
	}
	want := texts(*sch.Validate(context.Background(), jdoc).Errs)
	if g := texts(errs); strings.Join(g, "\n") != strings.Join(want, "\n") {
		c.Fatalf("%s: errors\n%s\nwant\n%s", st.Format, vt.Trunc(strings.Join(g, "\n"), 800), vt.Trunc(strings.Join(want, "\n"), 800))
	}
	c.Labelf("%s big=%v bad=%v", st.Format, big, len(places) > 0)
	if len(places) > 0 && len(places) < len(ents) {
		c.NonTrivial(st.Format, data, string(schemaBefore))
	}
	c.Sample("%s %d entries, %d bad, schema %s", st.Format, len(ents), len(places), schemaBefore)
}

func unreadable(c *vt.C) {
	st, ents, _, data := makeBody(c, false)
	if vt.Chance(c.T, 8, "noSchema") { // a schema that has no JSON form, or is no JSON schema
		st.Schema["x"] = vt.From(c.T, "unusable", []interface{}{make(chan int), func() {}, math.NaN()})
		if vt.Bool(c.T, "notSchema") {
			delete(st.Schema, "x")
			st.Schema["items"] = vt.From(c.T, "items", []interface{}{5, "x", dx.Obj{"type": 7}, dx.Obj{"minimum": "a"}})
		}
		if s, err := st.JSONSchema(); err == nil {
			c.Fatalf("schema %v read as %v", st.Schema, s)
		}
		r, err := dsio.NewEntryReader(st, vt.Chunks(c, data))
		if err != nil {
			return
		}
		var errs []jsonschema.KeyError
		c.NoPanic("validate", func() { errs, err = validate.EntryReader(r) })
		if err == nil {
			c.Fatalf("validates against a schema %v that is none: %v", st.Schema, errs)
		}
		c.Label("unusable schema")
		c.NonTrivial(st.Format, data, fmt.Sprintf("%T", st.Schema["x"]), fmt.Sprint(st.Schema["items"]))
		return
	}
	if len(ents) == 0 {
		return
	}
	fault := vt.ErrFault
	k := vt.N(c.T, 0, len(data)-1, "failAt")
	r, err := dsio.NewEntryReader(st, &vt.Chunked{Data: data[:k], Err: fault})
	if err != nil {
		return
	}
	errs, err := validate.EntryReader(r)
	if err == nil {
		c.Fatalf("a %s %s body whose reading fails after %d of %d bytes validates: %v", st.Format, st.Compression, k, len(data), errs)
	}
	c.NonTrivial(st.Format, data, k)
}

var nameRE = regexp.MustCompile(`\A[A-Za-z][A-Za-z0-9_]{0,143}\z`)

func names(c *vt.C) {
	var s string
	switch vt.N(c.T, 0, 3, "nameKind") {
	case 0:
		s = vt.One(c.T, "first", "a", "Z", "_", "1", "é", "-", "") + strings.Repeat(vt.One(c.T, "rest", "b", "_", "0", "Q"), vt.N(c.T, 139, 147, "len"))
	case 1:
		s = vt.Str(c.T, vt.StrOpts{})
	case 2:
		s = vt.One(c.T, "name", "", "a", "a_b", "A1", "_a", "1a", "a b", "a-b", "a\n", "\na", "a\x00", "aé", "a.b", "ａ", "a\r", "z", "a\nb", "[", "`", "a^", "a[", "K\u212a")
	default:
		n := vt.N(c.T, 0, 6, "chars")
		for i := 0; i < n; i++ {
			s += vt.One(c.T, "char", "a", "z", "A", "Z", "0", "9", "_", "-", "/", ":", "@", "[", "`", "{", " ", "\n")
		}
	}
	err := validate.ValidName(s)
	if want := nameRE.MatchString(s); want != (err == nil) {
		c.Fatalf("name %q (%d bytes): %v", s, len(s), err)
	}
	c.Labelf("ok=%v", err == nil)
	c.NonTrivial(s)
	c.Sample("%q %v", vt.Trunc(s, 60), err)
}

func components(c *vt.C) {
	title := strings.Repeat(vt.One(c.T, "char", "a", "é", "世", " "), vt.N(c.T, 0, 104, "titleLen"))
	if vt.Bool(c.T, "edge") {
		title = strings.Repeat(vt.One(c.T, "char", "a", "é", "世"), vt.N(c.T, 98, 102, "titleLen"))
	}
	cm := &dataset.Commit{Title: title, Message: vt.Str(c.T, vt.StrOpts{})}
	cmOK := utf8.RuneCountInString(title) <= 100
	if err := validate.Commit(cm); cmOK != (err == nil) {
		c.Fatalf("commit title of %d characters (%d bytes): %v", utf8.RuneCountInString(title), len(title), err)
	}
	formats := map[string]bool{"json": true, "csv": true, "cbor": true, "xml": true, "xlsx": true, "ndjson": true, "jsonl": false}
	f := vt.One(c.T, "format", "json", "csv", "cbor", "xml", "xlsx", "ndjson", "", "JSON", "txt", "zip")
	st := dx.NoiseFields(c, &dataset.Structure{Format: f, Length: 3})
	if vt.Bool(c.T, "moreCommit") {
		cm.Qri, cm.Path, cm.Signature = "cm:0", vt.Str(c.T, vt.StrOpts{}), vt.Str(c.T, vt.StrOpts{})
		cm.Author = &dataset.User{ID: vt.Str(c.T, vt.StrOpts{})}
	}
	if vt.Bool(c.T, "schema") {
		st.Schema = dx.Obj{"type": "array"}
		if vt.Bool(c.T, "emptySchema") {
			st.Schema = dx.Obj{}
		}
	}
	stOK := formats[f] && st.Schema != nil
	if err := validate.Structure(st); stOK != (err == nil) {
		c.Fatalf("structure format %q schema %v: %v", f, st.Schema, err)
	}
	if err := validate.Schema(st.Schema); (st.Schema != nil) != (err == nil) {
		c.Fatalf("schema %v: %v", st.Schema, err)
	}
	ds := &dataset.Dataset{Name: "x"}
	ok := true
	if vt.Chance(c.T, 4, "noCommit") {
		ok = false
	} else {
		ds.Commit = cm
		ok = ok && cmOK
	}
	if vt.Bool(c.T, "withStructure") {
		ds.Structure = st
		ok = ok && stOK
	}
	if err := validate.Dataset(ds); ok != (err == nil) {
		c.Fatalf("dataset commit=%v structure=%v: %v", ds.Commit, ds.Structure, err)
	}
	if validate.Dataset(nil) != nil || validate.Commit(nil) != nil || validate.Structure(nil) != nil {
		c.Fatalf("nothing to validate is refused")
	}
	c.Labelf("commit=%v structure=%v", cmOK, stOK)
	c.NonTrivial(title, f, fmt.Sprint(st.Schema), ds.Commit == nil, ds.Structure == nil)
	c.Sample("title of %d, format %q, schema %v", len(title), f, st.Schema)
}

func rows(c *vt.C) {
	nc := vt.N(c.T, 1, 4, "cols")
	nr := vt.N(c.T, 1, 7, "rows")
	if vt.Chance(c.T, 300, "many") {
		nr = vt.N(c.T, 1000, 3000, "manyRows")
	}
	badAt := -1
	if vt.Bool(c.T, "ragged") {
		badAt = vt.N(c.T, 0, nr-1, "badAt")
	}
	var b strings.Builder
	lens := map[int]bool{}
	eol := vt.One(c.T, "eol", "\n", "\r\n")
	for i := 0; i < nr; i++ {
		n := nc
		if i == badAt {
			n = vt.N(c.T, 1, 5, "badLen")
		}
		lens[n] = true
		var f []string
		for j := 0; j < n; j++ {
			s := "x"
			if nr < 50 {
				s = vt.One(c.T, "cell", "x", "1", "a b", `"a,b"`, `"a""b"`, "\"a\nb\"", "é", `""`, "y ", " z", ` "a,b"`, "\t\"c\"", "#", "# note", "'", ";", "\\")
			}
			f = append(f, s)
		}
		b.WriteString(strings.Join(f, ","))
		if i < nr-1 || vt.Bool(c.T, "lastEOL") {
			b.WriteString(eol)
			if vt.Chance(c.T, 12, "blank") {
				b.WriteString(eol)
			}
		}
	}
	text := b.String()
	err := validate.CheckCsvRowLengths(vt.Chunks(c, []byte(text)))
	if (len(lens) == 1) != (err == nil) {
		c.Fatalf("row lengths %v of %q: %v", lens, vt.Trunc(text, 300), err)
	}
	if validate.CheckCsvRowLengths(strings.NewReader("")) == nil {
		c.Fatalf("no rows accepted")
	}
	k := vt.N(c.T, 0, len(text)-1, "failAt")
	if e := validate.CheckCsvRowLengths(&vt.Chunked{Data: []byte(text[:k]), Err: vt.ErrFault}); e == nil {
		c.Fatalf("rows accepted although reading fails after %d bytes of %q", k, vt.Trunc(text, 300))
	}
	c.Labelf("ok=%v", err == nil)
	if nr > 1 {
		c.NonTrivial(text)
	}
	c.Sample("%q %v", vt.Trunc(text, 100), err)
}
