package c10

import (
	"archive/zip"
	"bytes"
	"io"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/compression"
	"github.com/qri-io/dataset/detect"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/qfs"
	"verif/cx"
	"verif/dx"
	"verif/jx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	debug.SetMaxStack(512 << 20)
	vt.Main(m, "case = bytes (random, token soup, or a valid body of the format with random mutations), a schema (tabular, bare or malformed) and a body format, read to the end under panic, entry-count, time and allocation limits, or offered for detection; non-trivial = more than 3 bytes of input; distinct by input, format and schema")
}

func TestC10(t *testing.T) {
	for _, f := range []string{"json", "cbor", "csv", "ndjson"} {
		f := f
		vt.Check(t, "mutated_"+f, 20000, 600000, func(c *vt.C) { read(c, f, mutated(c, f)) })
		vt.Check(t, "soup_"+f, 20000, 600000, func(c *vt.C) { read(c, f, soup(c, f)) })
	}
	vt.Check(t, "mutated_xlsx", 1500, 30000, func(c *vt.C) { read(c, "xlsx", workbook(c)) })
	vt.Check(t, "compressed", 4000, 60000, compressed)
	vt.Check(t, "deep", 120, 1200, deep)
	vt.Check(t, "lengths", 10000, 200000, lengths)
	vt.Check(t, "detect", 20000, 400000, detectAny)
}

// schema draws a schema a reader may or may not accept.
func schema(c *vt.C) dx.Obj {
	tlt := vt.One(c.T, "tlt", "array", "object")
	switch vt.N(c.T, 0, 7, "schemaKind") {
	case 0, 1, 2:
		return dx.Obj{"type": tlt}
	case 3, 4:
		return dx.GenTable(c, dx.TableOpts{MaxCols: 4, MaxRows: 0}).Schema()
	case 5:
		items := dx.Arr{}
		for i := vt.N(c.T, 0, 4, "oddCols"); i > 0; i-- {
			col := dx.Obj{}
			switch vt.N(c.T, 0, 6, "oddCol") {
			case 0:
				col["type"] = dx.Arr{}
			case 1:
				col["type"] = dx.Arr{1.0, nil}
			case 2:
				col["type"] = vt.Value(c.T, vt.ValOpts{Depth: 1})
			case 3:
				col["title"] = vt.Value(c.T, vt.ValOpts{Depth: 1})
			case 4:
				col["type"] = "nosuchtype"
			case 5:
				items = append(items, vt.Value(c.T, vt.ValOpts{Depth: 1}))
				continue
			}
			items = append(items, col)
		}
		return dx.Obj{"type": "array", "items": dx.Obj{"type": "array", "items": items}}
	case 6:
		return dx.Obj{"type": vt.Value(c.T, vt.ValOpts{Depth: 1}), "items": vt.Value(c.T, vt.ValOpts{Depth: 2})}
	default:
		return dx.Obj{"type": tlt, "items": vt.Value(c.T, vt.ValOpts{Depth: 2}), "properties": vt.Value(c.T, vt.ValOpts{Depth: 1})}
	}
}

// valid draws a valid body.
func valid(c *vt.C, format string) []byte {
	o := vt.ValOpts{Depth: 3, Str: vt.StrOpts{Big: 1000}}
	keyed := format != "ndjson" && vt.Bool(c.T, "keyed")
	switch format {
	case "csv":
		tb := dx.GenTable(c, dx.TableOpts{MaxCols: 4, MaxRows: 4, Depth: 1})
		data, _ := dx.Write(&dataset.Structure{Format: "csv", Schema: tb.Schema()}, tb.Entries())
		return data
	case "cbor":
		e := &cx.Enc{T: c.T}
		if keyed {
			e.Value(vt.Object(c.T, o, 4))
		} else {
			e.Value(vt.Array(c.T, o, 4))
		}
		return e.B
	case "json":
		var v interface{} = vt.Array(c.T, o, 4)
		if keyed {
			v = vt.Object(c.T, o, 4)
		}
		return []byte(jx.Join(c.T, jx.Tokens(c.T, v), 2, true))
	}
	var lines []string
	for i := vt.N(c.T, 0, 4, "lines"); i > 0; i-- {
		lines = append(lines, strings.Join(jx.Tokens(c.T, vt.Value(c.T, o)), ""))
	}
	return []byte(strings.Join(lines, "\n"))
}

// mutate applies random edits.
func mutate(c *vt.C, b []byte, tokens []string) []byte {
	for i := vt.N(c.T, 0, 4, "edits"); i > 0; i-- {
		at := vt.N(c.T, 0, len(b), "at")
		switch vt.N(c.T, 0, 6, "edit") {
		case 0:
			b = b[:at]
		case 1:
			if at < len(b) {
				b = append(append([]byte{}, b[:at]...), b[at+1:]...)
			}
		case 2:
			if at < len(b) {
				b = append([]byte{}, b...)
				b[at] ^= 1 << uint(vt.N(c.T, 0, 7, "bit"))
			}
		case 3:
			tok := tokens[vt.N(c.T, 0, len(tokens)-1, "tok")]
			b = append(append(append([]byte{}, b[:at]...), tok...), b[at:]...)
		case 4:
			if at < len(b) {
				b = append([]byte{}, b...)
				b[at] = byte(vt.N(c.T, 0, 255, "byte"))
			}
		case 5:
			to := vt.N(c.T, at, len(b), "to")
			b = append(append(append([]byte{}, b[:at]...), b[at:to]...), b[at:]...)
		case 6:
			to := vt.N(c.T, at, len(b), "to")
			b = append(append([]byte{}, b[:at]...), b[to:]...)
		}
	}
	return b
}

var tokens = map[string][]string{
	"json":   {"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\ud800", "\\x", "\\\"", "null", "true", "fals", "1", "-", "1e", "1e999", ".", "\"a\"", " ", "\n", "\x00", "\xff", "99999999999999999999", "n", "t", "+"},
	"ndjson": {"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "null", "true", "1", "-", "1e999", "\"a\"", " ", "\n", "\r\n", "\n\n", "\x00", "\xff"},
	"csv":    {",", "\"", "\"\"", "\n", "\r", "\r\n", "a", "1", "true", "null", "{", "[", "{}", "[]", " ", "\x00", "\xff", ";", "\t", "1e999", "-", "99999999999999999999"},
	"cbor":   {"\x00", "\x17", "\x18", "\x19", "\x1a", "\x1b", "\x1c", "\x1f", "\x20", "\x3b", "\x3f", "\x40", "\x41", "\x58", "\x5b\x7f\xff\xff\xff\xff\xff\xff\xff", "\x5f", "\x60", "\x61a", "\x78", "\x7b\xff\xff\xff\xff\xff\xff\xff\xff", "\x7f", "\x80", "\x81", "\x9a\x7f\xff\xff\xff", "\x9b\x00\x00\x00\x01\x00\x00\x00\x00", "\x9f", "\xa0", "\xa1", "\xba\xff\xff\xff\xff", "\xbb\x7f\xff\xff\xff\xff\xff\xff\xff", "\xbf", "\xc0", "\xc2", "\xd8", "\xe0", "\xf4", "\xf5", "\xf6", "\xf7", "\xf8", "\xf9", "\xfa", "\xfb", "\xff"},
}

func mutated(c *vt.C, format string) []byte { return mutate(c, valid(c, format), tokens[format]) }

func soup(c *vt.C, format string) []byte {
	if vt.Chance(c.T, 5, "raw") {
		return vt.Bytes(c.T, 600)
	}
	tk := tokens[format]
	var b bytes.Buffer
	if format == "json" && vt.Bool(c.T, "open") {
		b.WriteString(vt.One(c.T, "opener", "[", "{", "[{", "[[", `{"a":`))
	}
	if format == "cbor" && vt.Bool(c.T, "open") {
		b.WriteString(vt.One(c.T, "opener", "\x9f", "\xbf", "\x81", "\xa1", "\x9f\x9f", "\xbf\x61a"))
	}
	for i := vt.N(c.T, 0, 20, "ntok"); i > 0; i-- {
		b.WriteString(tk[vt.N(c.T, 0, len(tk)-1, "tok")])
	}
	return b.Bytes()
}

func allocated() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

// read reads data to its end under all limits.
func read(c *vt.C, format string, data []byte) {
	st := dx.Noise(c, &dataset.Structure{Format: format, Schema: schema(c)})
	if format == "csv" && vt.Bool(c.T, "csvOpts") {
		st.FormatConfig = dx.Obj{"headerRow": vt.Bool(c.T, "header"), "lazyQuotes": vt.Bool(c.T, "lazy"), "variadicFields": vt.Bool(c.T, "var"),
			"separator": dx.Separators[vt.N(c.T, 0, len(dx.Separators)-1, "sep")]}
	}
	if format == "xlsx" {
		tb := dx.GenTable(c, dx.TableOpts{MaxCols: 4, MaxRows: 0})
		if vt.Bool(c.T, "tabular") {
			st.Schema = tb.Schema()
		}
	}
	src := vt.Chunks(c, data)
	if len(data) > 3 {
		c.NonTrivial(data, format, st.Schema)
	}
	c.Sample("%s schema %v data %q", format, st.Schema, data)
	limits(c, st, src, len(data))
}

func limits(c *vt.C, st *dataset.Structure, src *vt.Chunked, size int) {
	before := allocated()
	// every entry takes at least a byte, rows of a workbook are filled up to its largest row number
	max := size + 100000
	n := 0
	c.NoPanic("reading "+st.Format, func() {
		r, err := dsio.NewEntryReader(st, src)
		if err != nil {
			c.Label("refused at creation")
			return
		}
		for n = 0; n <= max; n++ {
			if _, err = r.ReadEntry(); err != nil {
				break
			}
		}
		if err == io.EOF {
			c.Label("clean end")
		} else if err != nil {
			c.Label("error")
		}
		for i := 0; i < 3; i++ { // reading on must be harmless too
			if _, err := r.ReadEntry(); err == nil {
				n++
			}
		}
		r.Close()
	})
	if n > max {
		c.Fatalf("more than %d entries from %d bytes: %q", max, size, vt.Trunc(string(src.Data), 200))
	}
	if src.AfterEnd > 2*n+10000 {
		c.Fatalf("source read %d times after its end", src.AfterEnd)
	}
	if used, limit := allocated()-before, uint64(24<<20+4000*size); used > limit {
		c.Fatalf("%d bytes allocated to read %d bytes of %s: %q", used, size, st.Format, vt.Trunc(string(src.Data), 200))
	}
}

// compressed reads mutated compressed streams.
func compressed(c *vt.C) {
	format := vt.One(c.T, "format", "json", "cbor", "csv", "ndjson")
	comp := vt.One(c.T, "comp", "gzip", "zstd")
	buf := &bytes.Buffer{}
	w, err := compression.Compressor(comp, buf)
	if err != nil {
		c.Fatalf("vt: %v", err)
	}
	w.Write(valid(c, format))
	w.Close()
	data := mutate(c, buf.Bytes(), []string{"\x00", "\xff", "\x1f\x8b", "\x28\xb5\x2f\xfd"})
	if comp == "zstd" && len(data) > 4 && data[4]&0xe3 != 0x00 && vt.Bool(c.T, "x") {
		data = data[:4]
	}
	c.NonTrivial(data, format, comp)
	st := dx.Noise(c, &dataset.Structure{Format: format, Compression: comp, Schema: schema(c)})
	c.NoPanic("reading compressed "+format, func() {
		r, err := dsio.NewEntryReader(st, bytes.NewReader(data))
		if err != nil {
			return
		}
		defer r.Close()
		for i := 0; i < 2000000; i++ {
			if _, err := r.ReadEntry(); err != nil {
				return
			}
		}
		c.Fatalf("no end after 2000000 entries from %d bytes", len(data))
	})
}

// deep nests containers far beyond what a stack holds.
func deep(c *vt.C) {
	format := vt.One(c.T, "format", "json", "cbor", "ndjson", "csv")
	n := []int{9000, 100000, 4000000}[vt.N(c.T, 0, 2, "levels")]
	if n == 4000000 {
		n += vt.N(c.T, 0, 1000, "more")
	}
	var unit, pre string
	switch format {
	case "cbor":
		unit = vt.One(c.T, "unit", "\x81", "\x9f", "\xa1\x61k", "\xbf\x61k")
	default:
		unit = vt.One(c.T, "unit", "[", `{"k":`, "[1,")
	}
	tlt := "array"
	if strings.HasPrefix(unit, "{") || unit[0] == 0xa1 || unit[0] == 0xbf {
		tlt = "object"
	}
	st := dx.Noise(c, dx.St(format, tlt, ""))
	switch format {
	case "ndjson":
		st = dx.St(format, "array", "")
	case "csv":
		tb := &dx.Table{Cols: []dx.Obj{{"title": "a", "type": vt.One(c.T, "ct", "array", "object")}}}
		st.Schema = tb.Schema()
		unit = strings.ReplaceAll(strings.ReplaceAll(unit, `"`, `""`), "\x81", "[")
		pre = `"`
	}
	data := []byte(pre + strings.Repeat(unit, n/len(unit)))
	c.NonTrivial(format, unit, n)
	c.Labelf("nested %s, %d bytes", format, len(data)/1000*1000)
	c.NoPanic("reading nested "+format, func() {
		r, err := dsio.NewEntryReader(st, bytes.NewReader(data))
		if err != nil {
			c.Fatalf("new reader: %v", err)
		}
		for i := 0; i <= len(data); i++ {
			if _, err := r.ReadEntry(); err != nil {
				if err == io.EOF && format != "csv" {
					c.Fatalf("unclosed nesting read to a clean end")
				}
				return
			}
		}
		c.Fatalf("no end")
	})
}

// lengths declares sizes that are not there.
func lengths(c *vt.C) {
	e := &cx.Enc{T: c.T}
	tlt := vt.One(c.T, "tlt", "array", "object")
	var b bytes.Buffer
	major := byte(0x80)
	if tlt == "object" {
		major = 0xa0
	}
	big := func(m byte) {
		v := uint64(vt.N(c.T, 1, 1<<62, "declared"))
		w := []int{1, 2, 4, 8}[vt.N(c.T, 0, 3, "width")]
		b.WriteByte(m | byte(24+map[int]int{1: 0, 2: 1, 4: 2, 8: 3}[w]))
		for i := w - 1; i >= 0; i-- {
			b.WriteByte(byte(v >> uint(8*i)))
		}
	}
	if vt.Bool(c.T, "topBig") {
		big(major)
	} else {
		b.WriteByte(major | 31)
	}
	for i := vt.N(c.T, 0, 6, "inner"); i > 0; i-- {
		if tlt == "object" {
			b.WriteString("\x61" + string(rune('a'+i)))
		}
		switch vt.N(c.T, 0, 4, "what") {
		case 0:
			b.WriteByte(1)
		case 1:
			big(0x80)
		case 2:
			big(0xa0)
			b.WriteString("\x61k")
		case 3:
			big(vt.One(c.T, "m", "\x40", "\x60")[0])
		default:
			e.B = nil
			e.Value(vt.Value(c.T, vt.ValOpts{Depth: 2}))
			b.Write(e.B)
		}
	}
	c.NonTrivial(b.Bytes())
	limits(c, dx.St("cbor", tlt, ""), vt.Chunks(c, b.Bytes()), b.Len())
}

var refRe = regexp.MustCompile(`r="([A-Za-z]*)([0-9]*)"`)

// workbook is a valid workbook with mutated parts, or mutated as a whole.
func workbook(c *vt.C) []byte {
	tb := dx.GenTable(c, dx.TableOpts{Str: vt.StrOpts{XML: true}, MaxCols: 4, MaxRows: 3})
	data, err := dx.Write(&dataset.Structure{Format: "xlsx", Schema: tb.Schema()}, tb.Entries())
	if err != nil {
		c.Fatalf("vt: %v", err)
	}
	if vt.Chance(c.T, 4, "whole") {
		return mutate(c, data, []string{"PK", "\x00", "\xff", "PK\x05\x06"})
	}
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		c.Fatalf("vt: %v", err)
	}
	buf := &bytes.Buffer{}
	zw := zip.NewWriter(buf)
	for _, f := range zr.File {
		rc, _ := f.Open()
		part, _ := io.ReadAll(rc)
		rc.Close()
		sheet := strings.HasPrefix(f.Name, "xl/worksheets/sheet")
		if sheet && !vt.Chance(c.T, 3, "keepSheet") || vt.Chance(c.T, 10, "mutPart") {
			orig := part
			part = mutate(c, part, []string{"<row>", "</row>", `<c r="A1">`, `<c>`, "</c>", "<v>", "</v>", `r="0"`, `r="A0"`, `r="1A"`, `r=""`, `r="-1"`, `t="s"`, `t="b"`, `t="inlineStr"`, `s="99"`, `s="-1"`, "<", ">", "&", "<v>999</v>", "<v>-1</v>", "<sheetData>", "</sheetData>", `r="B1"`, `<row r="2"><c r="C2"/></row>`})
			// known finding: row and column numbers are trusted, a large one fills memory
			for _, m := range refRe.FindAllSubmatch(part, -1) {
				if len(m[1]) > 2 || len(m[2]) > 4 {
					part = orig
					break
				}
			}
		}
		if vt.Chance(c.T, 40, "dropPart") {
			continue
		}
		w, _ := zw.Create(f.Name)
		w.Write(part)
	}
	zw.Close()
	return buf.Bytes()
}

// detectAny offers anything for detection.
func detectAny(c *vt.C) {
	format := vt.One(c.T, "format", "json", "cbor", "csv", "ndjson")
	var data []byte
	if vt.Bool(c.T, "mut") {
		data = mutated(c, format)
	} else {
		data = soup(c, format)
	}
	name := vt.One(c.T, "name", "a.json", "a.csv", "a.cbor", "a.ndjson", "a.jsonl", "a.xlsx", "a.xml", "a.csv.gz", "a.json.zst", "a.cbor.gzip", "a", "a.txt", ".csv", "a.gz")
	if vt.Chance(c.T, 4, "oddName") {
		name = vt.Str(c.T, vt.StrOpts{}) + vt.One(c.T, "ext", ".json", ".csv", ".cbor", "")
	}
	if len(data) > 3 {
		c.NonTrivial(data, name)
	}
	before := allocated()
	c.NoPanic("detecting", func() {
		df, comp, err := detect.FormatFromFilename(name)
		if err == nil {
			src := vt.Chunks(c, data)
			_, _, err := detect.FromReader(df, comp, src)
			if src.AfterEnd > 10000 {
				c.Fatalf("source read %d times after its end", src.AfterEnd)
			}
			if err == nil {
				c.Label("detected")
			}
		}
		ds := &dataset.Dataset{}
		ds.SetBodyFile(qfs.NewMemfileReader(name, vt.Chunks(c, data)))
		if err := detect.Structure(ds); err == nil {
			// reading with what was detected must be safe as well
			r, err := dsio.NewEntryReader(ds.Structure, ds.BodyFile())
			if err != nil {
				return
			}
			for i := 0; i <= len(data)+10; i++ {
				if _, err := r.ReadEntry(); err != nil {
					return
				}
			}
			c.Fatalf("no end reading %d detected bytes", len(data))
		}
	})
	if used, limit := allocated()-before, uint64(64<<20+8000*len(data)); used > limit {
		c.Fatalf("%d bytes allocated to detect %d bytes", used, len(data))
	}
}
