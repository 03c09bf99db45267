package c06

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"strconv"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/dsio"
	"verif/dx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = tabular schema (1-8 columns of all JSON types, single or multi typed, titled or not), rows of matching cells, and CSV options (any ASCII separator, header, lazy quotes, variadic fields, compression), written, read back and parsed independently; non-trivial = at least one row; distinct by body bytes")
}

func TestC06(t *testing.T) {
	str := vt.StrOpts{NoCR: true, Big: 5000}
	vt.Check(t, "roundtrip", 40000, 1000000, func(c *vt.C) { roundTrip(c, dx.TableOpts{Str: str, MaxCols: 8, MaxRows: 8, Depth: 2}) })
	vt.Check(t, "narrow", 20000, 400000, func(c *vt.C) { roundTrip(c, dx.TableOpts{Str: str, MaxCols: 1, MaxRows: 6, Depth: 1}) })
	vt.Check(t, "ragged", 10000, 200000, func(c *vt.C) {
		roundTrip(c, dx.TableOpts{Str: str, MaxCols: 6, MaxRows: 6, Depth: 1, Ragged: true})
	})
	vt.Check(t, "many", 150, 2400, func(c *vt.C) {
		roundTrip(c, dx.TableOpts{Str: vt.StrOpts{NoCR: true, Max: 30}, MaxCols: 4, MaxRows: -70000})
	})
	vt.Check(t, "wide", 400, 6000, func(c *vt.C) {
		roundTrip(c, dx.TableOpts{Str: vt.StrOpts{NoCR: true, Max: 30}, MaxCols: 6, MaxRows: 3, Wide: 3000})
	})
	vt.Check(t, "written", 12000, 240000, written)
	vt.Check(t, "big", 3000, 50000, func(c *vt.C) {
		roundTrip(c, dx.TableOpts{Str: vt.StrOpts{NoCR: true, Big: 300000}, MaxCols: 3, MaxRows: 4})
	})
}

func plain(c *vt.C, st *dataset.Structure, data []byte) []byte {
	if st.Compression == "" {
		return data
	}
	r, err := compression.Decompressor(st.Compression, bytes.NewReader(data))
	if err != nil {
		c.Fatalf("decompressor: %v", err)
	}
	defer r.Close()
	p, err := io.ReadAll(r)
	if err != nil {
		c.Fatalf("decompressing: %v", err)
	}
	return p
}

func roundTrip(c *vt.C, o dx.TableOpts) {
	tb := dx.GenTable(c, o)
	st := dx.Noise(c, dx.CSVStructure(c, tb, o.Ragged))
	data, err := dx.Write(st, tb.Entries())
	if err != nil {
		c.Fatalf("%v", err)
	}
	p := plain(c, st, data)
	if len(tb.Rows) > 0 {
		c.NonTrivial(data)
	}
	header, _ := st.FormatConfig["headerRow"].(bool)
	c.Labelf("header=%v", header)
	c.Sample("types %v config %v body %q", tb.Types, st.FormatConfig, p)

	// an independent parse of the text
	cr := csv.NewReader(bytes.NewReader(p))
	cr.FieldsPerRecord = -1
	if s, ok := st.FormatConfig["separator"].(string); ok {
		cr.Comma = []rune(s)[0]
		c.Label("custom separator")
	}
	recs, err := cr.ReadAll()
	if err != nil {
		c.Fatalf("body is not CSV: %v: %q", err, vt.Trunc(string(p), 300))
	}
	if header {
		if len(recs) == 0 {
			c.Fatalf("no header row in %q", p)
		}
		if fmt.Sprintf("%q", recs[0]) != fmt.Sprintf("%q", tb.Titles) {
			c.Fatalf("header row %q, want titles %q", recs[0], tb.Titles)
		}
		recs = recs[1:]
	}
	if len(recs) != len(tb.Rows) {
		c.Fatalf("%d rows written as %d records: %q", len(tb.Rows), len(recs), vt.Trunc(string(p), 300))
	}
	for i, rec := range recs {
		if len(rec) != len(tb.Rows[i]) {
			c.Fatalf("row %d: %d cells written as %d fields", i, len(tb.Rows[i]), len(rec))
		}
		for j, f := range rec {
			if d := cellText(tb.Rows[i][j], f); d != "" {
				c.Fatalf("row %d cell %d: %s", i, j, d)
			}
		}
	}

	got, err := dx.Read(st, vt.Chunks(c, data), len(tb.Rows)+1)
	if err != nil {
		c.Fatalf("reading back: %v\nbody %q", err, vt.Trunc(string(p), 300))
	}
	if d := dx.DiffEntries(tb.WantEntries(), got, false, false, vt.CmpOpts{}); d != "" {
		c.Fatalf("round trip: %s\ntypes %v config %v body %q", d, tb.Types, st.FormatConfig, vt.Trunc(string(p), 300))
	}
	for i, e := range got {
		row := e.Value.([]interface{})
		for j, v := range row {
			if tb.Rows[i][j] == nil {
				continue
			}
			ok := true
			switch tb.Types[j] {
			case "integer":
				switch v.(type) {
				case int, int64:
				default:
					ok = false
				}
			case "number":
				_, ok = v.(float64)
			}
			if !ok {
				c.Fatalf("row %d: %s cell came back as %T", i, tb.Types[j], v)
			}
		}
	}
	if len(got) > 0 && vt.Chance(c.T, 10, "size") && st.Compression == "" {
		sizes(c, st, data, tb)
	}
}

// sizes reads the body through readers of other buffer sizes.
func sizes(c *vt.C, st *dataset.Structure, data []byte, tb *dx.Table) {
	n := vt.N(c.T, 1, 100, "bufSize")
	r, err := dsio.NewCSVReaderSize(st, bytes.NewReader(data), n)
	if err != nil {
		c.Fatalf("new reader: %v", err)
	}
	got, err := dx.Drain(r, len(tb.Rows)+1)
	if err != nil {
		c.Fatalf("buffer size %d: %v", n, err)
	}
	if d := dx.DiffEntries(tb.WantEntries(), got, false, false, vt.CmpOpts{}); d != "" {
		c.Fatalf("buffer size %d: %s", n, d)
	}
}

// cellText tells how a field fails to denote a cell.
func cellText(v interface{}, f string) string {
	bad := func() string { return fmt.Sprintf("%s written as %q", vt.Show(v), vt.Trunc(f, 100)) }
	switch x := v.(type) {
	case nil:
		if f != "" {
			return bad()
		}
	case string:
		if f != x {
			return bad()
		}
	case bool:
		if f != strconv.FormatBool(x) {
			return bad()
		}
	case int, int64, float64:
		var n interface{}
		if i, err := strconv.ParseInt(f, 10, 64); err == nil {
			n = i
		} else if fl, err := strconv.ParseFloat(f, 64); err == nil {
			n = fl
		}
		if vt.Diff(v, n, vt.CmpOpts{}) != "" {
			// a float may be written with more digits than an int64 holds exactly
			if fl, err := strconv.ParseFloat(f, 64); err != nil || vt.Diff(v, fl, vt.CmpOpts{}) != "" {
				return bad()
			}
		}
	default:
		var n interface{}
		if err := json.Unmarshal([]byte(f), &n); err != nil {
			return bad()
		}
		if d := vt.Diff(v, n, vt.CmpOpts{}); d != "" {
			return bad() + ": " + d
		}
	}
	return ""
}

// written reads tables that no writer of ours wrote: a cell takes its column's type if it
// denotes a value of it, and stays text otherwise.
func written(c *vt.C) {
	tb := dx.GenTable(c, dx.TableOpts{Str: vt.StrOpts{NoCR: true, Max: 20}, MaxCols: 4, MaxRows: 0})
	st := dx.Noise(c, dx.CSVStructure(c, tb, false))
	st.Compression = ""
	delete(st.FormatConfig, "lazyQuotes")
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	w.UseCRLF = vt.Bool(c.T, "crlf")
	if s, ok := st.FormatConfig["separator"].(string); ok {
		w.Comma = []rune(s)[0]
	}
	if h, _ := st.FormatConfig["headerRow"].(bool); h {
		_ = w.Write(tb.Titles)
		if len(tb.Titles) == 1 && tb.Titles[0] == "" {
			return // a blank line
		}
	}
	n := vt.N(c.T, 1, 5, "rows")
	var want []dx.Arr
	for i := 0; i < n; i++ {
		rec, row := []string{}, dx.Arr{}
		for _, ty := range tb.Types {
			s, v := cellOf(c, ty)
			rec, row = append(rec, s), append(row, v)
		}
		if len(rec) == 1 && rec[0] == "" {
			rec[0], row[0] = "x", "x"
		}
		_ = w.Write(rec)
		want = append(want, row)
	}
	w.Flush()
	got, err := dx.Read(st, vt.Chunks(c, b.Bytes()), n+1)
	if err != nil {
		c.Fatalf("reading %q: %v", b.String(), err)
	}
	if len(got) != n {
		c.Fatalf("read %d rows of %d: %q", len(got), n, b.String())
	}
	for i := range want {
		if d := vt.Diff(want[i], got[i].Value, vt.CmpOpts{IntKind: true}); d != "" {
			c.Fatalf("row %d of %q with types %v: %s", i, b.String(), tb.Types, d)
		}
	}
	c.NonTrivial(b.Bytes(), fmt.Sprint(tb.Types))
	c.Sample("types %v body %q", tb.Types, b.String())
}

// cellOf draws the text of a cell and the value it has in a column of the type.
func cellOf(c *vt.C, ty string) (string, interface{}) {
	type tv struct {
		s string
		v interface{}
	}
	text := vt.One(c.T, "otherText", "x", "", "n/a", "1.5.2", "--", "tru", "yes", "{", "[1", "12 apples", "0x", "1,5", "é", " ", "nulls", "1e", "}{", "[]x", "truefalse", "t r u e")
	if ty == "string" {
		s := vt.One(c.T, "strText", "1", "1.5", "true", "null", "", "[1]", `{"a":1}`, " a ", "007", "1e5", "NaN", text)
		return s, s
	}
	if vt.Chance(c.T, 3, "other") {
		if ty == "null" && text == "" {
			return "", nil
		}
		return text, text
	}
	var x tv
	switch ty {
	case "integer":
		x = vt.From(c.T, "int", []tv{{"0", int64(0)}, {"-1", int64(-1)}, {"9223372036854775807", int64(math.MaxInt64)}, {"-9223372036854775808", int64(math.MinInt64)}, {"42", int64(42)}, {"9223372036854775808", "9223372036854775808"}, {"1.5", "1.5"}, {"1e3", "1e3"}, {"12345678901", int64(12345678901)}})
	case "number":
		x = vt.From(c.T, "num", []tv{{"0", 0.0}, {"-1", -1.0}, {"1.5", 1.5}, {"1e3", 1000.0}, {"-2.5E-3", -0.0025}, {"9007199254740993", 9007199254740992.0}, {"0.1", 0.1}, {"1e400", "1e400"}, {"123456.789", 123456.789}, {"-0", math.Copysign(0, -1)}})
	case "boolean":
		x = vt.From(c.T, "bool", []tv{{"true", true}, {"false", false}, {"True", true}, {"False", false}, {"TRUE", true}, {"FALSE", false}, {"t", true}, {"f", false}, {"T", true}, {"F", false}})
	case "array":
		x = vt.From(c.T, "arr", []tv{{"[]", dx.Arr{}}, {"[1,\"a\"]", dx.Arr{1.0, "a"}}, {" [ null , true ] ", dx.Arr{nil, true}}, {"{}", "{}"}, {"[[1],{\"a\":[]}]", dx.Arr{dx.Arr{1.0}, dx.Obj{"a": dx.Arr{}}}}, {"[1,]", "[1,]"}})
	case "object":
		x = vt.From(c.T, "obj", []tv{{"{}", dx.Obj{}}, {"{\"a\":1}", dx.Obj{"a": 1.0}}, {" { \"a\" : [ ] } ", dx.Obj{"a": dx.Arr{}}}, {"[]", "[]"}, {"{a:1}", "{a:1}"}})
	case "null":
		x = vt.From(c.T, "null", []tv{{"", nil}, {"null", nil}})
	}
	return x.s, x.v
}
