package dx

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"verif/vt"
)

// Table is a generated table: a tabular schema, rows to write, and the rows a reader
// with that schema has to give back.
type Table struct {
	Cols   []Obj
	Types  []string // declared (first) type of each column
	Titles []string
	Rows   []Arr
	Want   []Arr
}

// TableOpts limits generated tables.
type TableOpts struct {
	Str      vt.StrOpts
	MaxCols  int
	MaxRows  int
	Depth    int
	NoNull   bool // no null cells
	Ragged   bool // rows may be shorter than the columns
	Simple   bool // columns string/integer/number/boolean only, always titled
	Distinct bool // distinct titles
	Wide     int  // if > 0, up to this many columns, which repeat the drawn ones
}

// Schema is the table's schema.
func (tb *Table) Schema() Obj {
	items := Arr{}
	for _, c := range tb.Cols {
		items = append(items, c)
	}
	return Obj{"type": "array", "items": Obj{"type": "array", "items": items}}
}

// Entries are the rows to write.
func (tb *Table) Entries() []dsio.Entry { return RowEntries(tb.Rows) }

// WantEntries are the rows to read.
func (tb *Table) WantEntries() []dsio.Entry { return RowEntries(tb.Want) }

// RowEntries turns rows into entries.
func RowEntries(rows []Arr) []dsio.Entry {
	var out []dsio.Entry
	for i, r := range rows {
		out = append(out, dsio.Entry{Index: i, Value: r})
	}
	return out
}

var colTypes = []string{"string", "integer", "number", "boolean", "array", "object", "null"}

// GenTable draws a table.
func GenTable(c *vt.C, o TableOpts) *Table {
	t := c.T
	tb := &Table{}
	nc := vt.N(t, 1, o.MaxCols, "cols")
	nt := len(colTypes) - 1
	if o.Simple {
		nt = 3
	}
	seen := map[string]bool{}
	for i := 0; i < nc; i++ {
		col := Obj{}
		ty := colTypes[vt.N(t, 0, nt, "colType")]
		switch k := vt.N(t, 0, 5, "typeForm"); {
		case k == 4 && !o.Simple:
			col["type"] = Arr{ty, colTypes[vt.N(t, 0, nt, "type2")]}
		case k == 5 && ty == "string" && !o.Simple: // the default
		default:
			col["type"] = ty
		}
		title := fmt.Sprintf("col_%d", i)
		if o.Simple || !vt.Chance(t, 6, "noTitle") {
			if vt.Bool(t, "simpleTitle") || o.Simple {
				title = vt.Str(t, vt.StrOpts{Simple: true})
			} else {
				title = vt.Str(t, vt.StrOpts{NoCR: true, XML: o.Str.XML})
			}
			if o.Distinct {
				for seen[title] {
					title += "x"
				}
			}
			col["title"] = title
		}
		seen[title] = true
		if vt.Chance(t, 6, "desc") {
			col["description"] = "about"
		}
		tb.Cols, tb.Types, tb.Titles = append(tb.Cols, col), append(tb.Types, ty), append(tb.Titles, title)
	}
	drawn := nc
	if o.Wide > 0 {
		for n := vt.N(t, nc, o.Wide, "wide"); nc < n; nc++ {
			col := Obj{"title": fmt.Sprintf("wide_%d", nc)}
			for k, v := range tb.Cols[nc%drawn] {
				if k != "title" {
					col[k] = v
				}
			}
			tb.Cols, tb.Types, tb.Titles = append(tb.Cols, col), append(tb.Types, tb.Types[nc%drawn]), append(tb.Titles, col["title"].(string))
		}
	}
	if o.MaxRows < 0 { // very many rows
		cycle := make([]Arr, 7)
		wants := make([]Arr, 7)
		for i := range cycle {
			cycle[i], wants[i] = GenRow(c, tb, o)
		}
		for i, nr := 0, ManyCount(c, -o.MaxRows); i < nr; i++ {
			row, want := cycle[i%7], wants[i%7]
			if tb.Types[0] == "integer" {
				row, want = append(Arr{int64(i)}, row[1:]...), append(Arr{int64(i)}, want[1:]...)
			}
			tb.Rows, tb.Want = append(tb.Rows, row), append(tb.Want, want)
		}
		return tb
	}
	nr := vt.N(t, 0, o.MaxRows, "rows")
	if o.MaxRows > 3 && vt.Chance(t, 60, "manyRows") {
		nr = vt.N(t, o.MaxRows, 1500, "rowsMany")
		o.Depth, o.Str.Big = 0, 0
		if nc > 3 {
			nr /= 4
		}
	}
	for r := 0; r < nr; r++ {
		n := nc
		if o.Ragged {
			n = vt.N(t, 1, nc, "rowLen")
		}
		row, want := make(Arr, n), make(Arr, n)
		for i := range row {
			if i >= drawn {
				row[i], want[i] = row[i%drawn], want[i%drawn]
				if tb.Types[i] == "integer" {
					row[i], want[i] = int64(i), int64(i)
				}
				continue
			}
			row[i], want[i] = cell(c, tb.Types[i], o)
		}
		tb.Rows, tb.Want = append(tb.Rows, row), append(tb.Want, want)
	}
	return tb
}

// Small makes the integers of a nested value fit a float64.
func Small(v interface{}) interface{} {
	switch x := v.(type) {
	case int64:
		if x > 1<<53 || x < -(1<<53) {
			return x % (1 << 53)
		}
	case Arr:
		for i := range x {
			x[i] = Small(x[i])
		}
	case Obj:
		for k := range x {
			x[k] = Small(x[k])
		}
	}
	return v
}

// fits tells whether a cell of a spreadsheet can hold a value.
func fits(v interface{}) bool {
	data, err := json.Marshal(v)
	return err == nil && len(data) < 32000
}

func cell(c *vt.C, ty string, o TableOpts) (v, want interface{}) {
	t := c.T
	if !o.NoNull && vt.Chance(t, 12, "nullCell") {
		if ty == "null" {
			return nil, nil
		}
		return nil, ""
	}
	vo := vt.ValOpts{Str: o.Str, Depth: o.Depth}
	switch ty {
	case "integer":
		i := vt.Int(t)
		if vt.Bool(t, "goInt") {
			return int(i), i
		}
		return i, i
	case "number":
		if vt.Chance(t, 4, "wholeNum") {
			i := int64(vt.N(t, -1000000, 1000000, "whole"))
			return i, float64(i)
		}
		f := vt.Float(t)
		return f, f
	case "boolean":
		b := vt.Bool(t, "b")
		return b, b
	case "array":
		a := Small(vt.Array(t, vo, 4))
		if o.Str.XML && !fits(a) {
			a = Arr{}
		}
		return a, a
	case "object":
		a := Small(vt.Object(t, vo, 4))
		if o.Str.XML && !fits(a) {
			a = Obj{}
		}
		return a, a
	case "null":
		return nil, nil
	}
	s := vt.Str(t, o.Str)
	return s, s
}

// Separators that CSV can use, as configured.
var Separators = func() []string {
	out := []string{",", ";", "\t", "|", ":", " "}
	for b := byte(1); b < 128; b++ {
		if b != '"' && b != '\r' && b != '\n' && !strings.Contains(",;\t|: ", string(rune(b))) {
			out = append(out, string(rune(b)))
		}
	}
	return append(out, "§", "·", "é", "→", "世", "😀", "\u00a0", "\u2028", "\ufeff", "\u0080", "ÿ", "Ā")
}()

// CSVStructure draws a CSV structure for a table.
func CSVStructure(c *vt.C, tb *Table, variadic bool) *dataset.Structure {
	t := c.T
	st := &dataset.Structure{Format: "csv", Schema: tb.Schema(), Compression: Comp(t)}
	cfg := Obj{}
	if vt.Bool(t, "header") {
		cfg["headerRow"] = true
	}
	if vt.Chance(t, 3, "lazy") {
		cfg["lazyQuotes"] = true
	}
	if variadic {
		cfg["variadicFields"] = true
	}
	if vt.Chance(t, 3, "sepSet") {
		i := vt.N(t, 0, 11, "sepCommon")
		if i > 5 {
			i = vt.N(t, 0, len(Separators)-1, "sep")
		}
		cfg["separator"] = Separators[i]
	}
	if len(cfg) > 0 {
		st.FormatConfig = cfg
	}
	return st
}

// GenRow draws one row of a table and what it reads back as.
func GenRow(c *vt.C, tb *Table, o TableOpts) (row, want Arr) {
	row, want = make(Arr, len(tb.Cols)), make(Arr, len(tb.Cols))
	for i := range row {
		row[i], want[i] = cell(c, tb.Types[i], o)
	}
	return row, want
}

// ByKey gives keyed entries in key order.
func ByKey(in []dsio.Entry) []dsio.Entry {
	out := append([]dsio.Entry{}, in...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return out
}
