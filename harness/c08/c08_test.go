package c08

import (
	"bytes"
	"encoding/json"
	"strings"
	"testing"

	"github.com/360EntSecGroup-Skylar/excelize"
	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"verif/dx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = table written to XLSX on a random sheet and read back, or a column index mapped to letters against bijective base 26; non-trivial = at least one row (tables) or index >= 26 (letters); distinct by rows or index")
}

func TestC08(t *testing.T) {
	str := vt.StrOpts{XML: true, Big: 40000}
	vt.Check(t, "roundtrip", 3000, 60000, func(c *vt.C) { roundTrip(c, dx.TableOpts{Str: str, MaxCols: 8, MaxRows: 8, Depth: 2}) })
	vt.Check(t, "anytext", 1500, 30000, func(c *vt.C) {
		roundTrip(c, dx.TableOpts{Str: vt.StrOpts{}, MaxCols: 3, MaxRows: 3, Depth: 1})
	})
	vt.Check(t, "many", 18, 300, func(c *vt.C) {
		roundTrip(c, dx.TableOpts{Str: vt.StrOpts{XML: true, Max: 20}, MaxCols: 3, MaxRows: -10001})
	})
	vt.Check(t, "odd", 600, 12000, odd)
	vt.Check(t, "long", 120, 2000, long)
	vt.Check(t, "wide", 120, 2000, wide)
	vt.Check(t, "letters", 60000, 1000000, letters)
}

func sheet(c *vt.C) string {
	if vt.Chance(c.T, 3, "usualSheet") {
		return vt.One(c.T, "sheetName", "Sheet 1", "Sheet2", "Sheet10", "sheet1", "SHEET1", "Data", "data 2020", "a&b", "<x>", "Übersicht", "2020", "Sheet1 (2)", "body", "a.b", "A1", "true", "名前", "x-y", "my_sheet", "#1", "50%")
	}
	s := vt.Str(c.T, vt.StrOpts{NoCR: true, XML: true})
	s = strings.Map(func(r rune) rune {
		if strings.ContainsRune(`:\/?*[]'`, r) || r < ' ' {
			return -1
		}
		return r
	}, s)
	s = strings.TrimSpace(s)
	for len([]rune(s)) > 31 {
		s = string([]rune(s)[:31])
	}
	return s
}

func roundTrip(c *vt.C, o dx.TableOpts) {
	tb := dx.GenTable(c, o)
	check(c, tb)
}

func check(c *vt.C, tb *dx.Table) {
	st := dx.Noise(c, &dataset.Structure{Format: "xlsx", Schema: tb.Schema()})
	switch vt.N(c.T, 0, 3, "sheet") {
	case 1:
		st.FormatConfig = dx.Obj{"sheetName": "Sheet1"}
	case 2, 3:
		st.FormatConfig = dx.Obj{"sheetName": sheet(c)}
	}
	if len(tb.Rows) > 0 {
		c.NonTrivial(tb.Rows)
	}
	c.Sample("config %v types %v rows %v", st.FormatConfig, tb.Types, tb.Rows)
	data, err := dx.Write(st, tb.Entries())
	if err != nil {
		if unfit(tb) {
			c.Label("cell refused: too long for a cell or not XML text")
			return
		}
		c.Fatalf("%v", err)
	}
	got, err := dx.Read(st, vt.Chunks(c, data), len(tb.Rows)+1)
	if err != nil {
		c.Fatalf("reading back: %v", err)
	}
	if d := dx.DiffEntries(tb.WantEntries(), got, false, true, vt.CmpOpts{}); d != "" {
		c.Fatalf("round trip: %s\ntypes %v config %v rows %s", d, tb.Types, st.FormatConfig, vt.Show(tb.Rows))
	}
	// the cells are where a spreadsheet program finds them
	f, err := excelize.OpenReader(bytes.NewReader(data))
	if err != nil {
		c.Fatalf("not a workbook: %v", err)
	}
	name, _ := st.FormatConfig["sheetName"].(string)
	if name == "" {
		name = "Sheet1"
	}
	for i := 0; i < 3 && len(tb.Rows) > 0; i++ {
		r := vt.N(c.T, 0, len(tb.Rows)-1, "row")
		k := vt.N(c.T, 0, len(tb.Rows[r])-1, "col")
		want, ok := tb.Rows[r][k].(string)
		if !ok {
			continue
		}
		axis := ref(k) + itoa(r+1)
		if got := f.GetCellValue(name, axis); got != want {
			c.Fatalf("cell %s holds %q, want %q", axis, got, want)
		}
	}
}

func itoa(i int) string {
	if i == 0 {
		return ""
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

// wide tables pass the two- and three-letter columns.
func wide(c *vt.C) {
	n := []int{26, 27, 52, 53, 200, 703, 730}[vt.N(c.T, 0, 6, "cols")] + vt.N(c.T, 0, 2, "adj")
	tb := &dx.Table{}
	row := dx.Arr{}
	for i := 0; i < n; i++ {
		tb.Cols = append(tb.Cols, dx.Obj{"title": ref(i), "type": "integer"})
		tb.Types = append(tb.Types, "integer")
		row = append(row, int64(i*7+vt.N(c.T, 0, 1, "v")))
	}
	for i := vt.N(c.T, 1, 2, "rows"); i > 0; i-- {
		tb.Rows = append(tb.Rows, row)
	}
	tb.Want = tb.Rows
	check(c, tb)
}

// ref is the standard spreadsheet name of a column: bijective base 26.
func ref(i int) string {
	s := ""
	for i++; i > 0; i = (i - 1) / 26 {
		s = string(rune('A'+(i-1)%26)) + s
	}
	return s
}

var all = map[string]int{}

func letters(c *vt.C) {
	i := vt.N(c.T, 0, 20000, "idx")
	switch vt.N(c.T, 0, 2, "kind") {
	case 1:
		base := []int{26, 702, 18278, 475254, 12356630}[vt.N(c.T, 0, 4, "edge")]
		i = base + vt.N(c.T, -30, 30, "near")
		if i < 0 {
			i = 0
		}
	case 2:
		i = vt.N(c.T, 0, 200000000, "far")
	}
	if i >= 26 {
		c.NonTrivial(i)
	}
	got := dsio.ColIndexToLetters(i)
	if got != ref(i) {
		c.Fatalf("column %d is named %q, want %q", i, got, ref(i))
	}
	if j, ok := all[got]; ok && j != i {
		c.Fatalf("columns %d and %d share the name %q", i, j, got)
	}
	if len(all) < 200000 {
		all[got] = i
	}
}

// unfit tells whether a cell is longer than spreadsheets allow or has characters XML
// lacks: such a cell may be refused, but not altered.
func unfit(tb *dx.Table) bool {
	for _, r := range tb.Rows {
		for _, v := range r {
			x, ok := v.(string)
			if !ok {
				b, _ := json.Marshal(v)
				x = string(b)
			}
			if len(x) > 32767 {
				return true
			}
			for _, r := range x {
				if (r < 0x20 && r != '\t' && r != '\n' && r != '\r') || r == 0xfffe || r == 0xffff {
					return true
				}
			}
		}
	}
	return false
}

// odd tables have characters that XML lacks or treats specially, or rows with other than
// the schema's number of cells.
func odd(c *vt.C) {
	tb := dx.GenTable(c, dx.TableOpts{Str: vt.StrOpts{XML: true, Max: 10}, MaxCols: 3, MaxRows: 4, Depth: 1})
	tb.Cols = append(tb.Cols, dx.Obj{"title": "odd", "type": "string"})
	tb.Types = append(tb.Types, "string")
	for i := range tb.Rows {
		s := vt.Str(c.T, vt.StrOpts{XML: true, Max: 5}) + vt.One(c.T, "odd", "\ufffe", "\uffff", "\x00", "\x01", "\x08", "\x0b", "\x0c", "\x0e", "\x1f", "\x7f", "\u0085", "\u2028", "\ufffd", "\ufdd0", "\U0001fffe", "\U0010ffff", "\ue000", "\ud7ff", "_x0041_", "_x000D_", "&amp;", "]]>", "<![CDATA[", "\r", "\t", " ")
		if vt.Bool(c.T, "after") {
			s += "z"
		}
		tb.Rows[i] = append(append(dx.Arr{}, tb.Rows[i]...), s)
		tb.Want[i] = append(append(dx.Arr{}, tb.Want[i]...), s)
	}
	check(c, tb)
}

// long cells come close to what a cell holds.
func long(c *vt.C) {
	tb := &dx.Table{}
	n := vt.N(c.T, 1, 3, "cols")
	for i := 0; i < n; i++ {
		ty := []string{"string", "array", "object"}[vt.N(c.T, 0, 2, "type")]
		tb.Cols = append(tb.Cols, dx.Obj{"title": ref(i), "type": ty})
		tb.Types = append(tb.Types, ty)
	}
	for i := vt.N(c.T, 1, 3, "rows"); i > 0; i-- {
		row := dx.Arr{}
		for _, ty := range tb.Types {
			size := vt.N(c.T, 0, 40, "len")
			switch vt.N(c.T, 0, 4, "lenKind") {
			case 0, 1:
				size = 32767 + vt.N(c.T, -12, 3, "near")
			case 2:
				size = vt.N(c.T, 8000, 36000, "large")
			}
			unit := vt.One(c.T, "unit", "x", "x", "é", "名", "a b", "&", "\n", "\"")
			s := strings.Repeat(unit, size/len(unit)+1)
			if len(unit) == 1 || unit == "a b" {
				s = s[:size]
			} else {
				s = s[:size/len(unit)*len(unit)] + strings.Repeat("z", size%len(unit))
			}
			var v interface{} = s
			switch ty {
			case "array":
				v = dx.Arr{s[:max(0, len(s)-4)], int64(1)}
				if unit != "x" {
					v = dx.Arr{int64(len(s))}
				}
			case "object":
				v = dx.Obj{"k": strings.Repeat("y", max(0, size-8))}
			}
			row = append(row, v)
		}
		tb.Rows = append(tb.Rows, row)
	}
	tb.Want = tb.Rows
	check(c, tb)
}
