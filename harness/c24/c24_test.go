package c24

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/qfs"
	"verif/dx"
	"verif/mx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a generated body (JSON, CBOR, NDJSON or CSV text, compressed or not, delivered in drawn chunks) whose structure is detected into an empty or partly filled structure and then used to read it back, or a file name; non-trivial = a body of at least one entry, or a name with an extension; distinct by body and structure")
}

func TestC24(t *testing.T) {
	vt.Check(t, "documents", 12000, 240000, documents)
	vt.Check(t, "csv", 20000, 400000, csvBody)
	vt.Check(t, "types", 8000, 160000, types)
	vt.Check(t, "titles", 6000, 120000, titles)
	vt.Check(t, "large", 600, 9000, large)
	vt.Check(t, "names", 8000, 160000, names)
	vt.Check(t, "keep", 8000, 160000, keep)
	vt.Check(t, "native", 4000, 80000, native)
	vt.Check(t, "broken", 12000, 240000, broken)
}

var compNames = map[string]string{"gzip": "gzip", "gz": "gzip", "zst": "zst", "zstd": "zst"}

func compress(c *vt.C, comp string, data []byte) []byte {
	if comp == "" {
		return data
	}
	buf := &bytes.Buffer{}
	w, err := compression.Compressor(comp, buf)
	if err != nil {
		c.Fatalf("compress: %v", err)
	}
	_, _ = w.Write(data)
	if err := w.Close(); err != nil {
		c.Fatalf("compress: %v", err)
	}
	return buf.Bytes()
}

// attach makes the body file of a dataset and detects its structure. It checks what is
// common to all formats and returns the structure and the bytes the body still has.
func attach(c *vt.C, ds *dataset.Dataset, name, format, comp string, raw []byte) error {
	sized := vt.Bool(c.T, "sized")
	var f qfs.File
	if sized {
		f = qfs.NewMemfileReaderSize(name, vt.Chunks(c, raw), int64(len(raw)))
	} else {
		f = qfs.NewMemfileReader(name, vt.Chunks(c, raw))
	}
	wasSize := int64(-1)
	if sf, ok := f.(qfs.SizeFile); ok {
		wasSize = sf.Size()
	}
	ds.SetBodyFile(f)
	var before *dataset.Structure
	if ds.Structure != nil {
		before = mx.Copy(ds.Structure).(*dataset.Structure)
	}
	running := runtime.NumGoroutine()
	err := detect.Structure(ds)
	c.Settled(running, "detection")
	if ds.BodyFile() == nil {
		c.Fatalf("body file gone after detecting %s", name)
	}
	if sf, ok := ds.BodyFile().(qfs.SizeFile); ok && sf.Size() != wasSize {
		c.Fatalf("size of the body is %d after detection, was %d", sf.Size(), wasSize)
	}
	if ds.BodyFile().FileName() != f.FileName() {
		c.Fatalf("file name %q after detection, was %q", ds.BodyFile().FileName(), f.FileName())
	}
	got, rerr := io.ReadAll(ds.BodyFile())
	if rerr != nil || !bytes.Equal(got, raw) {
		c.Fatalf("body of %s after detection (%v): %q (%v), was %q", name, err, vt.Trunc(string(got), 300), rerr, vt.Trunc(string(raw), 300))
	}
	if before != nil {
		rv := reflect.ValueOf(before).Elem()
		for i := 0; i < rv.NumField(); i++ {
			if !rv.Field(i).IsZero() && !reflect.DeepEqual(rv.Field(i).Interface(), reflect.ValueOf(ds.Structure).Elem().Field(i).Interface()) {
				c.Fatalf("field %s was %v, is %v after detection", rv.Type().Field(i).Name, rv.Field(i).Interface(), reflect.ValueOf(ds.Structure).Elem().Field(i).Interface())
			}
		}
	}
	if err != nil {
		return err
	}
	if (before == nil || before.Format == "") && ds.Structure.Format != format {
		c.Fatalf("format of %s detected as %q, want %q", name, ds.Structure.Format, format)
	}
	if (before == nil || before.Compression == "") && ds.Structure.Compression != compNames[comp] {
		c.Fatalf("compression of %s detected as %q, want %q", name, ds.Structure.Compression, compNames[comp])
	}
	return nil
}

func space(c *vt.C) string {
	s := vt.One(c.T, "space", "", "", " ", "\n", "\r\n\t", "   ")
	if vt.Chance(c.T, 12, "muchSpace") {
		s = strings.Repeat(" ", vt.N(c.T, 90, 310, "spaces"))
	}
	return s
}

// otherHead writes the count of a CBOR container in another way.
func otherHead(c *vt.C, b []byte, keyed bool, n int) []byte {
	skip := 1
	if info := b[0] & 31; info >= 24 && info < 28 {
		skip += 1 << (info - 24)
	}
	major := byte(4) << 5
	if keyed {
		major = 5 << 5
	}
	items := append([]byte{}, b[skip:]...)
	if b[0]&31 == 31 {
		items = items[:len(items)-1]
	}
	k := vt.N(c.T, 0, 4, "head")
	if k == 4 {
		return append(append([]byte{major | 31}, items...), 0xff)
	}
	head := []byte{major | byte(24+k)}
	for i := 1<<k - 1; i >= 0; i-- {
		head = append(head, byte(uint64(n)>>(8*i)))
	}
	return append(head, items...)
}

func documents(c *vt.C) {
	format := vt.One(c.T, "format", "json", "cbor", "ndjson")
	keyed := format != "ndjson" && vt.Bool(c.T, "keyed")
	tlt := "array"
	if keyed {
		tlt = "object"
	}
	comp := dx.Comp(c.T)
	ents := dx.Entries(c, keyed, 6, vt.ValOpts{Depth: 2})
	plain, err := dx.Write(dx.St(format, tlt, ""), ents)
	if err != nil {
		c.Fatalf("write: %v", err)
	}
	if format == "json" {
		plain = append([]byte(space(c)), plain...)
	}
	if format == "cbor" && vt.Chance(c.T, 3, "otherHead") {
		plain = otherHead(c, plain, keyed, len(ents))
	}
	raw := compress(c, comp, plain)
	ext := format
	if format == "ndjson" && vt.Bool(c.T, "jsonl") {
		ext = "jsonl"
	}
	name := "body." + ext
	if comp != "" {
		name += "." + comp
	}
	ds := &dataset.Dataset{}
	if vt.Chance(c.T, 3, "partial") {
		ds.Structure = &dataset.Structure{}
		if vt.Bool(c.T, "withFormat") {
			ds.Structure.Format = format
		}
		if vt.Bool(c.T, "withCounts") {
			ds.Structure.Length, ds.Structure.Checksum, ds.Structure.Strict = 7, "sum", true
		}
	}
	if err := attach(c, ds, name, format, comp, raw); err != nil {
		c.Fatalf("detect %s %q: %v", name, vt.Trunc(string(plain), 200), err)
	}
	if d := vt.Diff(dx.Obj{"type": tlt}, ds.Structure.Schema, vt.CmpOpts{}); d != "" {
		c.Fatalf("schema of %q: %s", vt.Trunc(string(plain), 200), d)
	}
	got, err := dx.Read(ds.Structure, bytes.NewReader(raw), len(ents)+5)
	if err != nil {
		c.Fatalf("reading %s with the detected structure: %v", name, err)
	}
	if format == "cbor" && keyed {
		ents, got = dx.ByKey(ents), dx.ByKey(got)
	}
	if d := dx.DiffEntries(ents, got, keyed, false, vt.CmpOpts{}); d != "" {
		c.Fatalf("reading %s with the detected structure: %s", name, d)
	}
	// what one caller does to its schema does not show in another's
	ds.Structure.Schema["items"] = "changed"
	ds.Structure.Schema["type"] = "string"
	df, cf, err := detect.FormatFromFilename(name)
	if err != nil {
		c.Fatalf("%v", err)
	}
	st2, _, err := detect.FromReader(df, cf, bytes.NewReader(raw))
	if err != nil {
		c.Fatalf("detect again: %v", err)
	}
	if d := vt.Diff(dx.Obj{"type": tlt}, st2.Schema, vt.CmpOpts{}); d != "" {
		c.Fatalf("schema detected after another caller changed its own: %s", d)
	}
	c.Label(format + " " + comp)
	if len(ents) > 0 {
		c.NonTrivial(name, raw)
	}
	c.Sample("%s %s", name, vt.Trunc(string(plain), 200))
}

var cells = []string{"", " ", "null", "true", "false", "TRUE", "t", "0", "1", "-7", "12", "1.5", "-0.25", "1e3", "word", "two words", "[1,2]", `{"a":1}`, "é", "NaN", "0x10", " 3", "3 ", " true", "-", "e", "+4", "#"}

// rawField draws the text of a CSV field as it stands in the file.
func rawField(c *vt.C, odd bool) string {
	s := cells[vt.N(c.T, 0, len(cells)-1, "cell")]
	switch vt.N(c.T, 0, 9, "fieldKind") {
	case 0:
		s = strconv.FormatInt(vt.Int(c.T), 10)
	case 1:
		s = strconv.FormatFloat(vt.Float(c.T), 'g', -1, 64)
	case 2:
		s = vt.Str(c.T, vt.StrOpts{NoCR: true})
	case 3:
		if odd { // as found in the wild: spaces before quotes, quotes inside
			return vt.One(c.T, "odd", ` "x,y"`, ` "a"`, `a "b" c`, `"quoted" `, `  "1"`, `x"y`, `"a""b"`, "\t\"z\"")
		}
	}
	if strings.ContainsAny(s, ",\"\n\r") || (s != "" && (s[0] == ' ' || s[0] == '\t') && vt.Bool(c.T, "quoteSpace")) {
		s = `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

// value is what a text denotes in a column of a type.
func value(ty, s string) interface{} {
	switch ty {
	case "number":
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			return f
		}
	case "integer":
		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
			return i
		}
	case "boolean":
		if b, err := strconv.ParseBool(s); err == nil {
			return b
		}
	case "object":
		var v map[string]interface{}
		if json.Unmarshal([]byte(s), &v) == nil {
			if v == nil {
				return nil
			}
			return v
		}
	case "array":
		var v []interface{}
		if json.Unmarshal([]byte(s), &v) == nil {
			if v == nil {
				return nil
			}
			return v
		}
	case "null":
		if s == "" || s == "null" {
			return nil
		}
	}
	return s
}

func isNil(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return true
	case map[string]interface{}:
		return x == nil
	case []interface{}:
		return x == nil
	}
	return false
}

func csvText(c *vt.C) string {
	nc := vt.N(c.T, 1, 5, "cols")
	nr := vt.N(c.T, 1, 8, "rows")
	many := vt.Chance(c.T, 150, "many")
	if many {
		nc = vt.N(c.T, 1, 2, "cols")
		nr = vt.N(c.T, 1980, 2200, "rows")
	}
	odd := vt.Bool(c.T, "odd")
	ragged := vt.Chance(c.T, 4, "ragged")
	eol := vt.One(c.T, "eol", "\n", "\n", "\r\n", "\r")
	var b strings.Builder
	if vt.Bool(c.T, "headed") {
		var h []string
		for i := 0; i < nc; i++ {
			h = append(h, vt.One(c.T, "head", "name", "Full Name", "year", "a-b", "x", "%", "2nd", " lead", "é"))
		}
		b.WriteString(strings.Join(h, ",") + eol)
	}
	filler := ""
	for r := 0; r < nr; r++ {
		if many && r > 3 && r < nr-1 {
			b.WriteString(filler)
			continue
		}
		n := nc
		if ragged && !many {
			n = vt.N(c.T, 1, nc+1, "rowLen")
		}
		var f []string
		for i := 0; i < n; i++ {
			f = append(f, rawField(c, odd && !many))
		}
		line := strings.Join(f, ",")
		filler = line + eol
		b.WriteString(line)
		if r < nr-1 || vt.Bool(c.T, "lastEOL") {
			b.WriteString(eol)
		}
	}
	return b.String()
}

// records reads the CSV text as it is meant to be read after detection.
func records(text string) ([][]string, error) {
	text = strings.ReplaceAll(strings.ReplaceAll(text, "\r\n", "\n"), "\r", "\n")
	r := csv.NewReader(strings.NewReader(text))
	r.LazyQuotes = true
	r.FieldsPerRecord = -1
	return r.ReadAll()
}

func csvBody(c *vt.C) {
	text := csvText(c)
	comp := dx.Comp(c.T)
	raw := compress(c, comp, []byte(text))
	name := "dir.d/body.csv"
	if comp != "" {
		name += "." + comp
	}
	recs, rerr := records(text)
	ds := &dataset.Dataset{}
	err := attach(c, ds, name, "csv", comp, raw)
	if rerr != nil || len(recs) == 0 {
		if err == nil && len(recs) == 0 && rerr == nil {
			c.Fatalf("structure detected from no rows %q: %s", text, mx.Sprint(ds.Structure))
		}
		c.Label("malformed")
		return
	}
	if err != nil {
		c.Fatalf("detect %q: %v", text, err)
	}
	checkCSV(c, ds.Structure, raw, text, recs)
	c.Label(comp)
	c.NonTrivial(name, raw)
	c.Sample("%q -> %s", text, mx.Sprint(ds.Structure))
}

func columns(c *vt.C, st *dataset.Structure) []map[string]interface{} {
	items, _ := st.Schema["items"].(map[string]interface{})
	if st.Schema["type"] != "array" || items == nil || items["type"] != "array" {
		c.Fatalf("schema of a CSV body: %v", st.Schema)
	}
	arr, _ := items["items"].([]interface{})
	var out []map[string]interface{}
	for _, v := range arr {
		col, ok := v.(map[string]interface{})
		if !ok {
			c.Fatalf("column %v", v)
		}
		out = append(out, col)
	}
	return out
}

// notTitle matches what is a value, not the title of a column.
var notTitle = regexp.MustCompile(`^([+-]?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]{1,2})?|true|false|)$`)

var plainKinds = []struct {
	kind string
	is   *regexp.Regexp
}{
	{"integer", regexp.MustCompile(`^(0|-?[1-9][0-9]{0,17})$`)},
	{"number", regexp.MustCompile(`^-?[0-9]{1,17}\.[0-9]{1,17}$`)},
	{"boolean", regexp.MustCompile(`^(true|false)$`)},
	{"null", regexp.MustCompile(`^null$`)},
	{"string", regexp.MustCompile(`^[a-zA-Z]+ [a-zA-Z]+$`)},
	{"array", regexp.MustCompile(`^\[.*\]$`)},
	{"object", regexp.MustCompile(`^\{.*\}$`)},
}

// mostFrequent checks the types of the columns whose texts all are of a plain kind:
// no other type is more frequent in a column than the one detected.
func mostFrequent(c *vt.C, cols []map[string]interface{}, recs [][]string, text string) {
	tally := make([]map[string]int, len(cols))
	for i := range tally {
		tally[i] = map[string]int{}
	}
	rows := 0
	for _, rec := range recs {
		if len(rec) != len(cols) {
			continue
		}
		if rows++; rows > 2000 {
			return // which rows count at the bound is left to large
		}
	cells:
		for i, s := range rec {
			for _, k := range plainKinds {
				if k.is.MatchString(strings.TrimLeft(s, " \t")) {
					tally[i][k.kind]++
					continue cells
				}
			}
			tally[i]["other"]++
		}
	}
	for i, col := range cols {
		if tally[i]["other"] > 0 || len(tally[i]) == 0 {
			continue
		}
		c.Labelf("kinds=%d", len(tally[i]))
		for kind, n := range tally[i] {
			if got, _ := col["type"].(string); n > tally[i][got] {
				c.Fatalf("column %d is detected as %s, but %s is more frequent in it (%v): %q", i, got, kind, tally[i], vt.Trunc(text, 600))
			}
		}
	}
}

func checkCSV(c *vt.C, st *dataset.Structure, raw []byte, text string, recs [][]string) []map[string]interface{} {
	cols := columns(c, st)
	if len(cols) != len(recs[0]) {
		c.Fatalf("%q: %d columns detected, the first row has %d", text, len(cols), len(recs[0]))
	}
	sampled := recs
	if head, _ := st.FormatConfig["headerRow"].(bool); head {
		for _, cell := range recs[0] {
			if notTitle.MatchString(strings.TrimSpace(cell)) {
				c.Fatalf("first row %q taken for a header, it holds %q", recs[0], cell)
			}
		}
		recs, sampled = recs[1:], recs[1:]
		c.Label("header")
	}
	mostFrequent(c, cols, sampled, text)
	got, err := dx.Read(st, bytes.NewReader(raw), len(recs)+5)
	if err != nil {
		c.Fatalf("reading %q with the detected structure %s: %v", vt.Trunc(text, 600), mx.Sprint(st), err)
	}
	if len(got) != len(recs) {
		c.Fatalf("%d rows read with the detected structure %s, want %d: %q", len(got), mx.Sprint(st), len(recs), vt.Trunc(text, 600))
	}
	for i, rec := range recs {
		row, ok := got[i].Value.([]interface{})
		if !ok || len(row) != len(rec) {
			c.Fatalf("row %d of %q is %v, want %q", i, text, got[i].Value, rec)
		}
		for j, s := range rec {
			ty := "string"
			if len(rec) <= len(cols) {
				ty, _ = cols[j]["type"].(string)
			}
			want := value(ty, s)
			if isNil(want) && isNil(row[j]) {
				continue
			}
			if d := vt.Diff(want, row[j], vt.CmpOpts{}); d != "" {
				c.Fatalf("cell %d of row %d (%q, column type %q) read as %s: %s\n%q", j, i, s, ty, vt.Show(row[j]), d, vt.Trunc(text, 600))
			}
		}
	}
	return cols
}

// large draws bodies beyond the usual: over a megabyte, hundreds of columns, or
// types that change in the middle of the rows the types are taken from.
func large(c *vt.C) {
	if vt.Bool(c.T, "document") {
		format := vt.One(c.T, "format", "json", "cbor", "ndjson")
		n, size := vt.N(c.T, 20, 400, "entries"), vt.N(c.T, 3000, 9000, "size")
		var ents []dsio.Entry
		for i := 0; i < n; i++ {
			ents = append(ents, dsio.Entry{Index: i, Value: strings.Repeat(fmt.Sprintf("%d é,", i), size/6)})
		}
		plain, err := dx.Write(dx.St(format, "array", ""), ents)
		if err != nil {
			c.Fatalf("write: %v", err)
		}
		comp := dx.Comp(c.T)
		name := "body." + format
		if comp != "" {
			name += "." + comp
		}
		raw := compress(c, comp, plain)
		ds := &dataset.Dataset{}
		if err := attach(c, ds, name, format, comp, raw); err != nil {
			c.Fatalf("detect %s of %d bytes: %v", name, len(plain), err)
		}
		got, err := dx.Read(ds.Structure, bytes.NewReader(raw), n+5)
		if err != nil {
			c.Fatalf("reading %s of %d bytes: %v", name, len(plain), err)
		}
		if d := dx.DiffEntries(ents, got, false, false, vt.CmpOpts{}); d != "" {
			c.Fatalf("reading %s of %d bytes: %s", name, len(plain), vt.Trunc(d, 300))
		}
		c.NonTrivial(name, n, size)
		c.Sample("%s of %d bytes", name, len(plain))
		return
	}
	cell := func(kind string, i int) string {
		switch kind {
		case "integer":
			return strconv.Itoa(i * 7)
		case "number":
			return fmt.Sprintf("%d.5", i)
		case "boolean":
			return []string{"true", "false"}[i%2]
		}
		return fmt.Sprintf("w%d", i)
	}
	if vt.Bool(c.T, "wide") {
		nc := vt.N(c.T, 20, 600, "cols")
		var head, row []string
		for i := 0; i < nc; i++ {
			head = append(head, fmt.Sprintf("c_%d", i))
			row = append(row, cell(vt.One(c.T, "kind", "integer", "number", "boolean", "string"), i))
		}
		headed := vt.Bool(c.T, "headed")
		if !headed {
			head[vt.N(c.T, 0, nc-1, "where")] = vt.One(c.T, "what", "5", "2.5", "true", " 7", "-1e3", "1234567890123", "-0.000000000125")
		}
		text := strings.Join(head, ",") + "\n" + strings.Join(row, ",") + "\n"
		ds := &dataset.Dataset{}
		if err := attach(c, ds, "body.csv", "csv", "", []byte(text)); err != nil {
			c.Fatalf("detect %d columns: %v", nc, err)
		}
		recs, _ := records(text)
		checkCSV(c, ds.Structure, []byte(text), text, recs)
		if h, _ := ds.Structure.FormatConfig["headerRow"].(bool); h != headed {
			c.Fatalf("header row detected %v, want %v: %q", h, headed, vt.Trunc(text, 3000))
		}
		c.NonTrivial(text)
		c.Sample("%d columns, headed=%v", nc, headed)
		return
	}
	// blocks of rows, each with one type in every column
	nc := vt.N(c.T, 1, 3, "cols")
	tally := make([]map[string]int, nc)
	for i := range tally {
		tally[i] = map[string]int{}
	}
	var b strings.Builder
	b.WriteString("a_1,b_1,c_1"[:nc*4-1] + "\n")
	rows := 0
	long := ""
	if vt.Chance(c.T, 3, "long") {
		long = strings.Repeat("x", vt.N(c.T, 100, 900, "pad"))
	}
	for k := vt.N(c.T, 2, 5, "blocks"); k > 0; k-- {
		n := vt.N(c.T, 1, 900, "rows")
		kinds := make([]string, nc)
		for i := range kinds {
			kinds[i] = vt.One(c.T, "kind", "integer", "number", "boolean", "string")
		}
		for ; n > 0; n-- {
			for i, kind := range kinds {
				if i > 0 {
					b.WriteString(",")
				}
				s := cell(kind, rows)
				if kind == "string" {
					s += long
				}
				b.WriteString(s)
				if rows < 2000 {
					tally[i][kind]++
				}
			}
			b.WriteString("\n")
			rows++
		}
	}
	text := b.String()
	ds := &dataset.Dataset{}
	if err := attach(c, ds, "body.csv", "csv", "", []byte(text)); err != nil {
		c.Fatalf("detect %d rows: %v", rows, err)
	}
	recs, _ := records(text)
	for i, col := range checkCSV(c, ds.Structure, []byte(text), text, recs) {
		got, _ := col["type"].(string)
		for _, n := range tally[i] {
			if n > tally[i][got]+1 {
				c.Fatalf("column %d of %d rows is detected as %s, but the first 2000 rows hold %v", i, rows, got, tally[i])
			}
		}
	}
	c.NonTrivial(rows, fmt.Sprint(tally))
	c.Sample("%d rows with %v", rows, tally)
}

// types draws tables whose columns each hold one plain kind of text.
func types(c *vt.C) {
	nc := vt.N(c.T, 1, 4, "cols")
	nr := vt.N(c.T, 1, 6, "rows")
	kinds := []string{"integer", "number", "boolean", "string", "array", "object", "null"}
	want := make([]string, nc)
	for i := range want {
		want[i] = kinds[vt.N(c.T, 0, 5, "kind")]
	}
	mixed := vt.Chance(c.T, 3, "mixed") // the most frequent kind decides
	if mixed {
		nr = vt.N(c.T, 3, 14, "rows")
	}
	headed := vt.Bool(c.T, "headed")
	var lines []string
	if headed {
		var h []string
		for i := 0; i < nc; i++ {
			h = append(h, vt.One(c.T, "head", "name", "full_name", "year", "ab", "x")+fmt.Sprint("_", i))
		}
		lines = append(lines, strings.Join(h, ","))
	}
	for r := 0; r < nr; r++ {
		var f []string
		for i := range want {
			s, kind := "", want[i]
			if mixed && vt.Bool(c.T, "other") {
				kind = kinds[vt.N(c.T, 0, 6, "otherKind")]
			}
			switch kind {
			case "null":
				s = "null"
			case "integer":
				s = strconv.Itoa(vt.N(c.T, -1000000, 1000000, "int"))
			case "number":
				s = fmt.Sprintf("%d.%d", vt.N(c.T, -1000, 1000, "int"), vt.N(c.T, 0, 99, "frac"))
			case "boolean":
				s = vt.One(c.T, "bool", "true", "false")
			case "string":
				s = vt.One(c.T, "word", "cat", "dog bird", "xy1", "a_b", "Zoé", "www.site", "a,b")
			case "array":
				s = vt.One(c.T, "arr", "[]", "[1]", `["a","b"]`)
			case "object":
				s = vt.One(c.T, "obj", "{}", `{"a":1}`)
			}
			if vt.Chance(c.T, 6, "lead") {
				s = vt.One(c.T, "space", " ", "\t", "  ") + s
			}
			if strings.ContainsAny(s, ",\"") {
				s = `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
			}
			f = append(f, s)
		}
		lines = append(lines, strings.Join(f, ","))
	}
	text := strings.Join(lines, "\n") + "\n"
	ds := &dataset.Dataset{}
	if err := attach(c, ds, "body.csv", "csv", "", []byte(text)); err != nil {
		c.Fatalf("detect %q: %v", text, err)
	}
	recs, _ := records(text)
	cols := checkCSV(c, ds.Structure, []byte(text), text, recs)
	head, _ := ds.Structure.FormatConfig["headerRow"].(bool)
	if headed && !head {
		c.Fatalf("header row not recognised: %q", text)
	}
	scalar := false
	for _, k := range want {
		scalar = scalar || k == "integer" || k == "number" || k == "boolean"
	}
	if !headed && head && scalar && !mixed {
		c.Fatalf("first row taken for a header: %q", text)
	}
	if head && len(recs) == 1 {
		return // nothing to infer from
	}
	titles := map[interface{}]bool{}
	for i, col := range cols {
		if !mixed && col["type"] != want[i] {
			c.Fatalf("column %d holds only %s but is detected as %v: %q", i, want[i], col["type"], text)
		}
		if ti, _ := col["title"].(string); ti == "" {
			c.Fatalf("column %d has no title: %q", i, text)
		}
		titles[col["title"]] = true
	}
	if headed && len(titles) != nc {
		c.Fatalf("distinct plain headers give titles %v: %q", titles, text)
	}
	c.NonTrivial(text)
	c.Sample("%q -> %v", text, want)
}

// titles draws header cells full of symbols: detecting the same body again gives
// the same titles, and a plain header cell is spelled out in its title.
func titles(c *vt.C) {
	nc := vt.N(c.T, 1, 4, "cols")
	var head, row []string
	plain := make([]string, nc)
	for i := 0; i < nc; i++ {
		cell := ""
		if vt.Bool(c.T, "plain") {
			words := []string{vt.One(c.T, "w", "city", "Year", "usage", "code"), fmt.Sprint("n", i)}
			if vt.Bool(c.T, "third") {
				words = append(words, vt.One(c.T, "w2", "Total", "rate", "label"))
			}
			cell = strings.Join(words, vt.One(c.T, "gap", " ", "_", "-"))
			plain[i] = strings.ToLower(strings.Join(words, "_"))
		} else {
			for k := vt.N(c.T, 1, 7, "parts"); k > 0; k-- {
				cell += vt.One(c.T, "part", "<", ">", "=", "~", "!", "^", "<=", ">=", "<>", "~=", "US$", "$", "%", "&", "/", ".", "_", "-", "#", "?", "A", "b", "Cd", "the", "é", "\\", "(", ":", "'")
			}
			cell = "h" + cell
		}
		head = append(head, cell)
		row = append(row, fmt.Sprint(i))
	}
	text := strings.Join(head, ",") + "\n" + strings.Join(row, ",") + "\n"
	var first string
	for i := 0; i < 4; i++ {
		ds := &dataset.Dataset{}
		if err := attach(c, ds, "body.csv", "csv", "", []byte(text)); err != nil {
			c.Fatalf("detect %q: %v", text, err)
		}
		got := vt.Show(ds.Structure.Schema)
		if i == 0 {
			first = got
		} else if got != first {
			c.Fatalf("detecting %q again gives\n%s\nbut gave\n%s", text, got, first)
		}
		recs, _ := records(text)
		cols := checkCSV(c, ds.Structure, []byte(text), text, recs)
		if h, _ := ds.Structure.FormatConfig["headerRow"].(bool); !h {
			continue
		}
		for j, col := range cols {
			if plain[j] != "" && col["title"] != plain[j] {
				c.Fatalf("header cell %q gives the title %v, want %q", head[j], col["title"], plain[j])
			}
		}
	}
	c.NonTrivial(text)
	c.Sample("%q -> %s", text, vt.Trunc(first, 200))
}

var formats = map[string]dataset.DataFormat{"cbor": dataset.CBORDataFormat, "json": dataset.JSONDataFormat, "csv": dataset.CSVDataFormat, "xml": dataset.XMLDataFormat, "xlsx": dataset.XLSXDataFormat, "jsonl": dataset.NDJSONDataFormat, "ndjson": dataset.NDJSONDataFormat}

func names(c *vt.C) {
	base := vt.One(c.T, "base", "body", "a.b", "dir/x", "dir.csv/x", "/abs/p.gz/f", "x.json", "")
	ext := vt.One(c.T, "ext", "cbor", "json", "csv", "xml", "xlsx", "jsonl", "ndjson", "", "txt", "CSV", "gz", "js on")
	comp := vt.One(c.T, "comp", "", "", "gzip", "gz", "zst", "zstd", "bz2", "GZ")
	name := base
	if ext != "" {
		name += "." + ext
	}
	if comp != "" {
		name += "." + comp
	}
	// reference: the last extension may be a compression, the one before the format
	last := name[strings.LastIndex(name, "/")+1:]
	parts := strings.Split(last, ".")
	wantComp := ""
	if n := len(parts); n > 1 {
		if cn, ok := compNames[parts[n-1]]; ok {
			wantComp = cn
			parts = parts[:n-1]
		}
	}
	want, ok := dataset.UnknownDataFormat, false
	if n := len(parts); n > 1 {
		want, ok = formats[parts[n-1]]
	}
	df, cf, err := detect.FormatFromFilename(name)
	if ok != (err == nil) {
		c.Fatalf("%q: %v, want recognised=%v", name, err, ok)
	}
	if ok && (df != want || cf.String() != wantComp) {
		c.Fatalf("%q: %v %q, want %v %q", name, df, cf, want, wantComp)
	}
	if !ok && df != dataset.UnknownDataFormat {
		c.Fatalf("%q: format %v with error %v", name, df, err)
	}
	c.Labelf("known=%v", ok)
	if strings.Contains(last, ".") {
		c.NonTrivial(name)
	}
	c.Sample("%s -> %v %s %v", name, df, cf, err)
}

// keep detects over a structure with drawn fields, and over a complete one.
func keep(c *vt.C) {
	var raw []byte
	name, format := "body.csv", "csv"
	if vt.Bool(c.T, "isJSON") {
		name, format = "body.json", "json"
		raw = []byte(vt.One(c.T, "doc", `[1,2]`, `{"a":1}`, "  []", `[[1,"a"]]`))
	} else {
		raw = []byte(vt.One(c.T, "doc", "a,b\n1,2\n", "1,2\n3,4\n", "a,b\nx,y\n", "x,true\n"))
	}
	ds := &dataset.Dataset{Name: "n", Structure: mx.Gen(c.T, "structure", mx.Opts{}).(*dataset.Structure)}
	if ds.Structure.Format != "" {
		ds.Structure.Format = vt.One(c.T, "fmt", "csv", "json", "cbor")
	}
	if vt.Bool(c.T, "noSchema") {
		ds.Structure.Schema = nil
	}
	// an empty schema or configuration is one that has been set
	if vt.Chance(c.T, 8, "emptySchema") {
		ds.Structure.Schema = map[string]interface{}{}
	}
	if vt.Chance(c.T, 8, "emptyConfig") {
		ds.Structure.FormatConfig = map[string]interface{}{}
	}
	hadSchema, hadConfig := ds.Structure.Schema, ds.Structure.FormatConfig
	complete := ds.Structure.Format != "" && ds.Structure.Schema != nil && (ds.Structure.Format != "csv" || ds.Structure.FormatConfig != nil)
	snap := mx.Copy(ds)
	if vt.Chance(c.T, 6, "noBody") {
		err := detect.Structure(ds)
		if complete != (err == nil) {
			c.Fatalf("detecting without a body, complete=%v: %v", complete, err)
		}
		if d := mx.Diff(snap, ds, mx.DiffOpts{}); d != "" {
			c.Fatalf("detecting without a body changed the dataset: %s", d)
		}
		return
	}
	comp := ""
	if vt.Chance(c.T, 3, "compressed") {
		if comp = dx.Comp(c.T); comp != "" {
			raw = compress(c, comp, raw)
			name += "." + comp
		}
	}
	if complete { // then nothing is filled in
		comp = ds.Structure.Compression
	}
	if err := attach(c, ds, name, format, comp, raw); err != nil {
		c.Fatalf("detect: %v", err)
	}
	if hadSchema != nil && !reflect.DeepEqual(hadSchema, ds.Structure.Schema) {
		c.Fatalf("schema was %v, is %v after detection", hadSchema, ds.Structure.Schema)
	}
	if hadConfig != nil && !reflect.DeepEqual(hadConfig, ds.Structure.FormatConfig) {
		c.Fatalf("format config was %v, is %v after detection", hadConfig, ds.Structure.FormatConfig)
	}
	if complete {
		if d := mx.Diff(snap, ds, mx.DiffOpts{}); d != "" {
			c.Fatalf("detection changed a complete structure: %s", d)
		}
		c.Label("complete")
	}
	if ds.Structure.Format == "" || ds.Structure.Schema == nil {
		c.Fatalf("structure incomplete after detection: %s", mx.Sprint(ds.Structure))
	}
	if !complete {
		// what was missing is what is detected without a structure
		df, cf, _ := detect.FormatFromFilename(name)
		guess, _, err := detect.FromReader(df, cf, vt.Chunks(c, raw))
		if err != nil {
			c.Fatalf("from reader: %v", err)
		}
		was := snap.(*dataset.Dataset).Structure
		if was.Schema == nil && !reflect.DeepEqual(ds.Structure.Schema, guess.Schema) {
			c.Fatalf("schema detected as %v, on its own as %v", ds.Structure.Schema, guess.Schema)
		}
		if was.FormatConfig == nil && ds.Structure.Format == guess.Format && !reflect.DeepEqual(ds.Structure.FormatConfig, guess.FormatConfig) {
			c.Fatalf("format config detected as %v, on its own as %v", ds.Structure.FormatConfig, guess.FormatConfig)
		}
		if was.FormatConfig == nil && ds.Structure.Format != guess.Format && len(ds.Structure.FormatConfig) > 0 {
			c.Fatalf("%s structure got the config %v of a %s body", ds.Structure.Format, ds.Structure.FormatConfig, guess.Format)
		}
		c.Label("filled")
	}
	if err := detect.Structure(nil); err == nil {
		c.Fatalf("structure of no dataset detected")
	}
	// other fields than those detection is about stay
	sk := func(k, f string) bool {
		return f == "Format" || f == "Schema" || f == "FormatConfig" || f == "Compression"
	}
	if d := mx.Diff(snap, ds, mx.DiffOpts{Skip: sk}); d != "" {
		c.Fatalf("detection changed something else: %s", d)
	}
	// detecting from a file gives what detecting from the reader gives
	if vt.Chance(c.T, 5, "file") {
		dir, err := os.MkdirTemp("", "c24")
		if err != nil {
			c.Fatalf("%v", err)
		}
		defer os.RemoveAll(dir)
		p := filepath.Join(dir, name)
		_ = os.WriteFile(p, raw, 0o600)
		st, err := detect.FromFile(p)
		if err != nil {
			c.Fatalf("from file: %v", err)
		}
		df, cf, _ := detect.FormatFromFilename(name)
		st2, _, err := detect.FromReader(df, cf, vt.Chunks(c, raw))
		if err != nil || mx.Sprint(st) != mx.Sprint(st2) {
			c.Fatalf("from file %s, from reader %s (%v)", mx.Sprint(st), mx.Sprint(st2), err)
		}
	}
	c.NonTrivial(mx.Sprint(snap), raw)
	c.Sample("%s over %s", raw, mx.Sprint(snap))
}

// native infers a tabular schema from decoded rows.
func native(c *vt.C) {
	var src interface{}
	n := vt.N(c.T, 0, 4, "cols")
	row := dx.Arr{}
	for i := 0; i < n; i++ {
		v := vt.Scalar(c.T, vt.ValOpts{})
		if vt.Chance(c.T, 4, "goNumber") {
			x := vt.N(c.T, 0, 100, "x")
			v = []interface{}{x, int8(x), int16(x), int32(x), uint(x), uint8(x), uint16(x), uint32(x), uint64(x), float32(x)}[vt.N(c.T, 0, 9, "goKind")]
		}
		row = append(row, v)
	}
	kind := vt.N(c.T, 0, 4, "srcKind")
	switch kind {
	case 0:
		src = dx.Arr{}
	case 1:
		src = dx.Obj{"a": row}
	case 2:
		src = dx.Arr{dx.Obj{"a": 1}, row}
	default:
		a := dx.Arr{row}
		for i := 0; i < vt.N(c.T, 0, 2, "more"); i++ {
			a = append(a, row)
		}
		src = a
	}
	got, err := detect.TabularSchemaFromTabularData(src)
	if kind < 3 {
		if err == nil {
			c.Fatalf("schema %v from %v", got, src)
		}
		return
	}
	if err != nil {
		c.Fatalf("%v: %v", src, err)
	}
	cols := dx.Arr{}
	for i, v := range row {
		ty := "string"
		switch v.(type) {
		case nil:
			ty = "null"
		case bool:
			ty = "boolean"
		case int64, float64, int, int8, int16, int32, uint, uint8, uint16, uint32, uint64, float32:
			ty = "number"
		}
		cols = append(cols, dx.Obj{"title": fmt.Sprintf("col_%d", i), "type": ty})
	}
	want := dx.Obj{"type": "array", "items": dx.Obj{"type": "array", "items": cols}}
	if d := vt.Diff(want, got, vt.CmpOpts{}); d != "" {
		c.Fatalf("%v: %s", src, d)
	}
	if n > 0 {
		c.NonTrivial(fmt.Sprint(src))
	}
	_ = dsio.Entry{}
}

// broken detects from bodies that are empty, of a kind that has no detection, cut, damaged
// or failing while they are read: detection says so, or finds what the whole body has.
func broken(c *vt.C) {
	format := vt.One(c.T, "format", "json", "cbor", "csv", "ndjson", "xml", "xlsx", "txt", "")
	comp := dx.Comp(c.T)
	var plain []byte
	kind := vt.N(c.T, 0, 5, "kind")
	fixed := format == "ndjson" || format == "xlsx"
	switch format {
	case "csv":
		plain = []byte(csvText(c))
	case "json", "cbor", "ndjson":
		keyed := format != "ndjson" && vt.Bool(c.T, "keyed")
		tlt := "array"
		if keyed {
			tlt = "object"
		}
		data, err := dx.Write(dx.St(format, tlt, ""), dx.Entries(c, keyed, 6, vt.ValOpts{Depth: 2}))
		if err != nil {
			c.Fatalf("write: %v", err)
		}
		plain = data
	default:
		plain = []byte(vt.Str(c.T, vt.StrOpts{}))
	}
	mustFail := ""
	switch kind {
	case 0:
		plain = nil
		if format == "json" {
			plain = []byte(space(c))
		}
		if !fixed { // the schema does not depend on the body
			mustFail = "empty"
		}
	case 1:
		switch format {
		case "json":
			plain = []byte(space(c) + vt.One(c.T, "head", "x", "1", "null", `"a"`, "]", "}", "true", "\x00", "-", "\xff") + string(plain))
			mustFail = "not a container"
		case "cbor":
			plain = append([]byte{[]byte{0x00, 0x18, 0x3b, 0x60, 0x7f, 0xc0, 0xf4, 0xf6, 0xfb, 0xff, 0x5f, 0x41}[vt.N(c.T, 0, 11, "head")]}, plain...)
			mustFail = "not a container"
		}
	}
	if format == "xml" || format == "txt" || format == "" {
		mustFail = "format"
	}
	raw := compress(c, comp, plain)
	cut := len(raw)
	if kind == 2 && comp != "" && len(raw) > 1 { // a damaged header
		raw = append([]byte{}, raw...)
		raw[vt.N(c.T, 0, 1, "damaged")] ^= 0x55
		mustFail = "damaged"
		if fixed {
			mustFail = ""
		}
	}
	var fail error
	if kind >= 3 {
		fail = vt.ErrFault
		cut = vt.N(c.T, 0, len(raw), "cut")
		if vt.Bool(c.T, "early") && cut > 3 {
			cut = vt.N(c.T, 0, 3, "cut")
		}
		if cut == 0 && !fixed {
			mustFail = "failing"
		}
	}
	name := "dir/body"
	if format != "" {
		name += "." + format
	}
	if comp != "" {
		name += "." + comp
	}
	src := vt.Chunks(c, raw[:cut])
	src.Err = fail
	ds := &dataset.Dataset{Name: "n"}
	if vt.Bool(c.T, "hasStructure") {
		ds.Structure = &dataset.Structure{Length: 3}
	}
	snap := mx.Copy(ds)
	ds.SetBodyFile(qfs.NewMemfileReader(name, src))
	running := runtime.NumGoroutine()
	err := detect.Structure(ds)
	c.Settled(running, "detection")
	got, rerr := io.ReadAll(ds.BodyFile())
	if !bytes.Equal(got, raw[:cut]) || !((fail == nil) == (rerr == nil)) {
		c.Fatalf("body of %s after detection (%v): %q (%v), was %q (%v)", name, err, vt.Trunc(string(got), 300), rerr, vt.Trunc(string(raw[:cut]), 300), fail)
	}
	c.Labelf("kind %d failed=%v", kind, err != nil)
	c.NonTrivial(name, raw, cut, fail == nil)
	c.Sample("%s %q kind %d: %v", name, vt.Trunc(string(raw[:cut]), 100), kind, err)
	if err == nil && mustFail != "" {
		c.Fatalf("%s (%s) %q: detected %s", name, mustFail, vt.Trunc(string(raw[:cut]), 200), mx.Sprint(ds.Structure))
	}
	if err == nil && (ds.Structure == nil || ds.Structure.Format != format || len(ds.Structure.Schema) == 0) {
		c.Fatalf("%s %q: no error, but %s", name, vt.Trunc(string(raw[:cut]), 200), mx.Sprint(ds.Structure))
	}
	if err != nil {
		if d := mx.Diff(snap, ds, mx.DiffOpts{}); d != "" {
			c.Fatalf("failing detection of %s changed the dataset: %s", name, d)
		}
	}
	// a body that fails while it is looked at is not a body that ends there
	if err == nil && fail != nil && format == "csv" && cut < len(raw) && bytes.Count(plain, []byte("\n"))+bytes.Count(plain, []byte("\r")) < 1900 {
		c.Fatalf("%s %q failing after %d bytes is detected as %s", name, vt.Trunc(string(raw), 300), cut, mx.Sprint(ds.Structure))
	}
	df, cf, nerr := detect.FormatFromFilename(name)
	if nerr == nil {
		src := &vt.Chunked{Data: raw[:cut], Plan: src.Plan, EOFIn: src.EOFIn, Err: fail}
		st, n, err2 := detect.FromReader(df, cf, src)
		if (err == nil) != (err2 == nil) && (comp == "" || fail == nil) { // decompressors read ahead by themselves
			c.Fatalf("%s: from dataset %v, from reader %v", name, err, err2)
		}
		if err == nil && err2 == nil && mx.Sprint(st.Schema) != mx.Sprint(ds.Structure.Schema) {
			c.Fatalf("%s: from dataset %s, from reader %s", name, mx.Sprint(ds.Structure.Schema), mx.Sprint(st.Schema))
		}
		if n < 0 || n > cut {
			// at least never more than there is
			if !(format == "cbor" && n == 1) {
				c.Fatalf("%s: %d bytes read of %d", name, n, cut)
			}
		}
	}
	if !vt.Chance(c.T, 10, "file") {
		return
	}
	dir, derr := os.MkdirTemp("", "c24")
	if derr != nil {
		c.Fatalf("%v", derr)
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, filepath.Base(name))
	if !vt.Chance(c.T, 4, "missing") {
		_ = os.WriteFile(p, raw, 0o600)
	} else {
		mustFail = "missing"
	}
	st, err := detect.FromFile(p)
	if fail != nil && mustFail == "failing" {
		return // the file does not fail
	}
	if err == nil && (mustFail != "" || st == nil || len(st.Schema) == 0) {
		c.Fatalf("file %s (%s) %q: detected %s", name, mustFail, vt.Trunc(string(raw), 200), mx.Sprint(st))
	}
}
