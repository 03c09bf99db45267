package c32

import (
	"encoding/json"
	"errors"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/tabular"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a schema, tabular or broken in one place, whose columns are extracted, or a list of titles validated, or a set of positions named, or a column coded as JSON; non-trivial = at least two columns, titles or positions; distinct by schema, titles or positions")
}

func TestC32(t *testing.T) {
	vt.Check(t, "extract", 60000, 1200000, extract)
	vt.Check(t, "refuse", 30000, 600000, refuse)
	vt.Check(t, "titles", 60000, 1200000, titles)
	vt.Check(t, "names", 12000, 240000, names)
	vt.Check(t, "coding", 30000, 600000, coding)
	vt.Check(t, "required", 6000, 120000, required)
}

var typeNames = []string{"string", "integer", "number", "boolean", "null", "object", "array", "", "custom"}

var keywords = []string{"minimum", "maxLength", "enum", "format", "key", "Title", "types", "items", "pattern", "required", "$ref", "titl"}

func notString(c *vt.C) interface{} {
	return []interface{}{nil, 1.5, true, []interface{}{}, map[string]interface{}{"a": "b"}, []interface{}{"x"}}[vt.N(c.T, 0, 5, "notString")]
}

type want struct {
	col      tabular.Column
	problems int
	anyDesc  bool
}

func title(c *vt.C) string {
	if vt.Bool(c.T, "plain") {
		return []string{"a", "b", "a b", "", "col_0", "col_1", "é", "1x"}[vt.N(c.T, 0, 7, "t")]
	}
	return vt.Str(c.T, vt.StrOpts{})
}

// column draws a column schema with the column it stands for.
func column(c *vt.C, i int) (interface{}, want) {
	w := want{col: tabular.Column{Title: "col_" + strconv.Itoa(i), Type: &tabular.ColType{"string"}}}
	if vt.Chance(c.T, 8, "notObject") {
		w.problems = 1
		return []interface{}{nil, "string", 3.0, []interface{}{}, true}[vt.N(c.T, 0, 4, "col")], w
	}
	m := map[string]interface{}{}
	switch vt.N(c.T, 0, 5, "title") {
	case 0:
		w.problems++
	case 1:
		m["title"] = notString(c)
		w.problems++
	default:
		s := title(c)
		m["title"] = s
		w.col.Title = s
	}
	tn := func() string { return typeNames[vt.N(c.T, 0, len(typeNames)-1, "type")] }
	switch vt.N(c.T, 0, 7, "typeKind") {
	case 0:
		w.problems++
	case 1:
		m["type"] = []interface{}{nil, 1.5, true, map[string]interface{}{"a": "b"}}[vt.N(c.T, 0, 3, "badType")]
		w.problems++
	case 2, 3, 4: // a list, maybe with elements that are not names
		n := vt.N(c.T, 0, 4, "types")
		if vt.Chance(c.T, 20, "manyTypes") {
			n = vt.N(c.T, 5, 20, "nTypes")
		}
		l := []interface{}{}
		ct := tabular.ColType{}
		bad := false
		for j := 0; j < n; j++ {
			if vt.Chance(c.T, 4, "bad") {
				l = append(l, notString(c))
				bad = true
				continue
			}
			s := tn()
			l = append(l, s)
			ct = append(ct, s)
		}
		m["type"] = l
		if len(ct) > 0 {
			w.col.Type = &ct
		}
		if bad || n == 0 {
			w.problems++
		}
	default:
		s := tn()
		m["type"] = s
		w.col.Type = &tabular.ColType{s}
	}
	switch vt.N(c.T, 0, 4, "desc") {
	case 0:
		s := vt.Str(c.T, vt.StrOpts{})
		m["description"] = s
		w.col.Description = s
	case 1:
		m["description"] = notString(c)
	}
	for j, n := 0, vt.N(c.T, 0, 3, "more"); j < n; j++ {
		k := keywords[vt.N(c.T, 0, len(keywords)-1, "kw")]
		v := vt.Value(c.T, vt.ValOpts{Depth: 2, Width: 3})
		m[k] = v
		if w.col.Validation == nil {
			w.col.Validation = map[string]interface{}{}
		}
		w.col.Validation[k] = vt.Clone(v)
	}
	return m, w
}

func schema(c *vt.C, items []interface{}) map[string]interface{} {
	rows := map[string]interface{}{"items": items}
	if vt.Bool(c.T, "rowType") {
		rows["type"] = "array"
	}
	s := map[string]interface{}{"type": "array", "items": rows}
	if vt.Chance(c.T, 3, "extra") {
		s["$schema"] = "x"
		s["title"] = "table"
		rows["description"] = "row"
	}
	return s
}

func extract(c *vt.C) {
	n := vt.N(c.T, 0, 6, "columns")
	if vt.Chance(c.T, 60, "wide") {
		n = vt.N(c.T, 20, 120, "wideColumns")
	}
	items := []interface{}{}
	var wants []want
	problems := 0
	for i := 0; i < n; i++ {
		it, w := column(c, i)
		items = append(items, it)
		wants = append(wants, w)
		problems += w.problems
	}
	if vt.Chance(c.T, 250, "veryWide") {
		for more := vt.N(c.T, 900, 3000, "more"); more > 0; more-- {
			items = append(items, map[string]interface{}{"type": "integer"})
			wants = append(wants, want{col: tabular.Column{Title: "col_" + strconv.Itoa(n), Type: &tabular.ColType{"integer"}}, problems: 1})
			problems++
			n++
		}
	}
	s := schema(c, items)
	snap := vt.Clone(s)
	cols, probs, err := tabular.ColumnsFromJSONSchema(s)
	if err != nil {
		c.Fatalf("%s refused: %v", vt.Show(s), err)
	}
	if !reflect.DeepEqual(snap, interface{}(s)) {
		c.Fatalf("extraction changed the schema %s to %s", vt.Show(snap), vt.Show(s))
	}
	if len(cols) != n {
		c.Fatalf("%d columns from %s, want %d", len(cols), vt.Show(s), n)
	}
	ts := cols.Titles()
	if len(ts) != n {
		c.Fatalf("%d titles of %d columns", len(ts), n)
	}
	for i, w := range wants {
		g := cols[i]
		if g.Type == nil || len(*g.Type) == 0 {
			c.Fatalf("column %d of %s has no type", i, vt.Show(s))
		}
		if g.Title != w.col.Title || ts[i] != w.col.Title || !reflect.DeepEqual([]string(*g.Type), []string(*w.col.Type)) || g.Description != w.col.Description {
			c.Fatalf("column %d of %s is %q %q %q, want %q %q %q", i, vt.Show(s), g.Title, *g.Type, g.Description, w.col.Title, *w.col.Type, w.col.Description)
		}
		for k, v := range g.Validation {
			// a malformed description may be kept as it is
			if wv, ok := w.col.Validation[k]; (!ok && k != "description") || (ok && !reflect.DeepEqual(v, wv)) {
				c.Fatalf("column %d of %s keeps %q: %s", i, vt.Show(s), k, vt.Show(v))
			}
		}
		for k := range w.col.Validation {
			if _, ok := g.Validation[k]; !ok {
				c.Fatalf("column %d of %s lost %q", i, vt.Show(s), k)
			}
		}
		for _, t := range typeNames {
			has := false
			for _, u := range *w.col.Type {
				has = has || u == t
			}
			if g.Type.HasType(t) != has {
				c.Fatalf("HasType(%q)=%v on %q", t, !has, *g.Type)
			}
		}
		// each problem names its column
		named, number := 0, " "+strconv.Itoa(i)+" "
		for _, p := range probs {
			if strings.Contains(p, number) {
				named++
			}
		}
		if named != w.problems {
			c.Fatalf("column %d of %s: %d problems in %q, want %d", i, vt.Show(s), named, probs, w.problems)
		}
	}
	if len(probs) != problems {
		c.Fatalf("%d problems %q with %s, want %d", len(probs), probs, vt.Show(s), problems)
	}
	// columns do not share storage
	for i := range cols {
		(*cols[i].Type)[0] = "mark" + strconv.Itoa(i)
	}
	for i := range cols {
		if (*cols[i].Type)[0] != "mark"+strconv.Itoa(i) {
			c.Fatalf("two columns of %s share their type", vt.Show(s))
		}
	}
	again, _, err := tabular.ColumnsFromJSONSchema(s)
	if err != nil || len(again) != n {
		c.Fatalf("second extraction: %d columns, %v", len(again), err)
	}
	for i, w := range wants {
		if !reflect.DeepEqual([]string(*again[i].Type), []string(*w.col.Type)) {
			c.Fatalf("changing a column's type changed the schema %s", vt.Show(s))
		}
	}
	c.Labelf("extract columns=%d problems=%v", min(n, 7), problems > 0)
	if n > 1 {
		c.NonTrivial(vt.Show(s))
	}
}

func refuse(c *vt.C) {
	var items []interface{}
	for i, n := 0, vt.N(c.T, 0, 3, "columns"); i < n; i++ {
		it, _ := column(c, i)
		items = append(items, it)
	}
	if items == nil {
		items = []interface{}{}
	}
	s := schema(c, items)
	notMap := func() interface{} {
		return []interface{}{nil, "x", 1.5, true, []interface{}{}, []interface{}{map[string]interface{}{"type": "string"}}}[vt.N(c.T, 0, 5, "notMap")]
	}
	notList := func() interface{} {
		return []interface{}{nil, "x", 1.5, true, map[string]interface{}{}, map[string]interface{}{"type": "string"}}[vt.N(c.T, 0, 5, "notList")]
	}
	how := vt.N(c.T, 0, 7, "how")
	switch how {
	case 0:
		delete(s, "type")
	case 1:
		s["type"] = notString(c)
	case 2:
		s["type"] = []string{"object", "string", "number", "", "Array", "array "}[vt.N(c.T, 0, 5, "type")]
	case 3:
		delete(s, "items")
	case 4:
		s["items"] = notMap()
	case 5:
		delete(s["items"].(map[string]interface{}), "items")
	case 6:
		s["items"].(map[string]interface{})["items"] = notList()
	case 7:
		s = []map[string]interface{}{nil, {}}[vt.N(c.T, 0, 1, "empty")]
	}
	var cols tabular.Columns
	var err error
	c.NoPanic("extract", func() { cols, _, err = tabular.ColumnsFromJSONSchema(s) })
	if err == nil {
		c.Fatalf("%s gave %d columns", vt.Show(s), len(cols))
	}
	if !errors.Is(err, tabular.ErrInvalidTabularSchema) {
		c.Fatalf("%s: error %v is not the tabular-schema error", vt.Show(s), err)
	}
	c.Labelf("refuse %d", how)
	if len(items) > 1 {
		c.NonTrivial(how, vt.Show(s))
	}
}

func ident(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		b := s[i]
		letter := b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_' || b == '$'
		if !letter && !(i > 0 && b >= '0' && b <= '9') {
			return false
		}
	}
	return true
}

func titles(c *vt.C) {
	chars := []string{"a", "Z", "_", "$", "0", "9", "z", "A", "b", "c", "Q", "7", " ", "-", ".", "é", "\n", "\x00", "@", "[", "`", "{", "/", ":", "ａ", "#"}
	n := vt.N(c.T, 0, 6, "titles")
	if vt.Chance(c.T, 20, "many") {
		n = vt.N(c.T, 7, []int{80, 80, 400, 3000}[vt.N(c.T, 0, 3, "titles2Max")], "titles2")
	}
	cols := make(tabular.Columns, n)
	ok := true
	seen := map[string]bool{}
	twin, of := -1, 0 // the only title that is not new
	if n > 6 && vt.Bool(c.T, "oneDup") {
		twin = vt.N(c.T, 1, n-1, "twin")
		of = vt.N(c.T, 0, twin-1, "twinOf")
	}
	for i := range cols {
		var s string
		if i == twin {
			s = cols[of].Title
		} else if twin >= 0 {
			s = "c" + strconv.Itoa(i)
		} else if i > 0 && vt.Chance(c.T, 8, "dup") {
			s = cols[vt.N(c.T, 0, i-1, "of")].Title
		} else if vt.Chance(c.T, 20, "upper") && i > 0 {
			s = strings.ToUpper(cols[i-1].Title) // titles are case-sensitive
		} else if n > 6 && !vt.Chance(c.T, 60, "odd") {
			s = "c" + strconv.Itoa(i)
		} else {
			hi := 11
			if vt.Chance(c.T, 5, "odd") {
				hi = len(chars) - 1
			}
			for j, m := 0, vt.N(c.T, 0, 4, "len"); j < m || (j == 0 && vt.Chance(c.T, 2, "more")); j++ {
				s += chars[vt.N(c.T, 0, hi, "char")]
			}
			if s != "" && vt.Chance(c.T, 2, "lead") {
				s = "x" + s
			}
			if vt.Chance(c.T, 30, "long") {
				s = strings.Repeat("Ab_9$", vt.N(c.T, 1, 700, "longLen")) + s
				if vt.Chance(c.T, 3, "tail") {
					s = s[len(s)/2:] + s
				}
			}
		}
		cols[i].Title = s
		if !ident(s) || seen[s] {
			ok = false
		}
		seen[s] = true
	}
	err := cols.ValidMachineTitles()
	if (err == nil) != ok {
		c.Fatalf("titles %q: error %v, want valid=%v", cols.Titles(), err, ok)
	}
	if err != nil && !errors.Is(err, tabular.ErrInvalidTabularSchema) {
		c.Fatalf("titles %q: error %v is not the tabular-schema error", cols.Titles(), err)
	}
	c.Labelf("titles=%d valid=%v", min(n, 7), ok)
	if n > 1 {
		c.NonTrivial(strings.Join(cols.Titles(), "|"))
	}
}

func names(c *vt.C) {
	seen := map[string]int{}
	var pos []int
	at := func(i int) {
		if i < 0 {
			return
		}
		s := dataset.AbstractColumnName(i)
		if s == "" || strings.Trim(s, "abcdefghijklmnopqrstuvwxyz") != "" {
			c.Fatalf("position %d is named %q", i, s)
		}
		if j, ok := seen[s]; ok && j != i {
			c.Fatalf("positions %d and %d are both named %q", j, i, s)
		}
		seen[s] = i
		if s != dataset.AbstractColumnName(i) {
			c.Fatalf("position %d changes its name", i)
		}
	}
	base := vt.N(c.T, 0, []int{100, 1000, 20000, 1000000, 50000000}[vt.N(c.T, 0, 4, "scale")], "base")
	pos = append(pos, base)
	for i := 0; i < 400; i++ {
		at(base + i)
	}
	pows := []int{1, 26, 676, 17576, 456976}
	for _, p := range pows {
		for _, q := range pows {
			for k := -2; k <= 2; k++ {
				at(base + p*k + q)
				at(p*k + q)
				at(base + p*k - q)
			}
		}
	}
	for i, n := 0, vt.N(c.T, 0, 20, "extra"); i < n; i++ {
		p := vt.N(c.T, 0, 2000, "pos")
		pos = append(pos, p)
		at(p)
	}
	c.Labelf("names of %d positions", len(seen)/500*500)
	c.NonTrivial(pos)
}

func coding(c *vt.C) {
	col := tabular.Column{Title: title(c), Description: title(c)}
	var ct tabular.ColType
	n := vt.N(c.T, 0, 4, "types")
	if vt.Chance(c.T, 8, "manyTypes") {
		n = vt.N(c.T, 5, 40, "nTypes")
	}
	for i := 0; i < n; i++ {
		s := typeNames[vt.N(c.T, 0, len(typeNames)-1, "type")]
		if vt.Chance(c.T, 6, "odd") {
			s = vt.Str(c.T, vt.StrOpts{Simple: true})
		}
		ct = append(ct, s)
	}
	col.Type = &ct
	if vt.Bool(c.T, "validation") {
		col.Validation = map[string]interface{}{"pattern": vt.Str(c.T, vt.StrOpts{Simple: true}), "minimum": 4.0, "enum": []interface{}{"a", nil, true}}
	}
	data, err := json.Marshal(ct)
	if err != nil {
		c.Fatalf("types %q: %v", ct, err)
	}
	var back tabular.ColType
	if err := json.Unmarshal(data, &back); err != nil {
		c.Fatalf("types %q encoded as %s: %v", ct, data, err)
	}
	if len(back) != len(ct) || (len(ct) > 0 && !reflect.DeepEqual(back, ct)) {
		c.Fatalf("types %q encoded as %s, decoded as %q", ct, data, back)
	}
	full := tabular.ColType{"string", "x", "null"}[:vt.N(c.T, 0, 3, "had")]
	if err := json.Unmarshal(data, &full); err != nil || len(full) != len(ct) || (len(ct) > 0 && !reflect.DeepEqual(full, ct)) {
		c.Fatalf("types %q encoded as %s, decoded into other types as %q (%v)", ct, data, full, err)
	}
	if len(ct) == 1 && data[0] != '"' {
		c.Fatalf("a single type is encoded as %s", data)
	}
	col.Title = strings.ToValidUTF8(col.Title, "?")
	col.Description = strings.ToValidUTF8(col.Description, "?")
	data, err = json.Marshal(col)
	if err != nil {
		c.Fatalf("column: %v", err)
	}
	got := tabular.Column{}
	if err := json.Unmarshal(data, &got); err != nil {
		c.Fatalf("column encoded as %s: %v", data, err)
	}
	if got.Type == nil || len(*got.Type) != len(ct) {
		c.Fatalf("column encoded as %s lost its types %q", data, ct)
	}
	got.Type = col.Type
	if !reflect.DeepEqual(got, col) {
		c.Fatalf("column encoded as %s, decoded as %+v", data, got)
	}
	// anything but a name or a list of names is refused
	for _, bad := range []string{"1", "true", `{"a":1}`, `[1]`, `["a",1]`, `[["a"]]`} {
		if err := json.Unmarshal([]byte(bad), &back); err == nil {
			c.Fatalf("type decoded from %s", bad)
		}
	}
	c.Labelf("coding types=%d", len(ct))
	if len(ct) > 1 {
		c.NonTrivial(strings.Join(ct, "|"), col.Title)
	}
}

// required: exactly the formats that hold nothing but tables need a tabular
// schema, and the abstract form of a structure keeps what reading depends on.
func required(c *vt.C) {
	f := []string{"csv", "xlsx", ".csv", ".xlsx", "json", "cbor", "ndjson", "xml", "", ".json", "CSV", "csvx", "xls", "tsv"}[vt.N(c.T, 0, 13, "format")]
	st := &dataset.Structure{Format: f, Encoding: vt.Str(c.T, vt.StrOpts{}), Strict: vt.Bool(c.T, "strict"),
		Path: vt.Str(c.T, vt.StrOpts{}), Checksum: vt.Str(c.T, vt.StrOpts{}), Entries: vt.N(c.T, 0, 9, "n"), ErrCount: vt.N(c.T, 0, 9, "e"), Length: vt.N(c.T, 0, 9, "l"), Depth: vt.N(c.T, 0, 3, "d"), Compression: vt.One(c.T, "comp", "", "gzip", "zst")}
	if vt.Bool(c.T, "config") {
		st.FormatConfig = vt.Object(c.T, vt.ValOpts{Depth: 1}, 3)
	}
	if vt.Bool(c.T, "schema") {
		st.Schema = vt.Object(c.T, vt.ValOpts{Depth: 2}, 3)
	}
	c.Labelf("required %q", f)
	c.NonTrivial(vt.Show(st))
	want := f == "csv" || f == "xlsx" || f == ".csv" || f == ".xlsx"
	if st.RequiresTabularSchema() != want {
		c.Fatalf("format %q requires a tabular schema: %v", f, !want)
	}
	a := st.Abstract()
	if a.Format != st.Format || a.Encoding != st.Encoding || a.Strict != st.Strict || !reflect.DeepEqual(a.FormatConfig, st.FormatConfig) {
		c.Fatalf("abstract form of %s: %s", vt.Show(st), vt.Show(a))
	}
	if a.Path != "" || a.Checksum != "" || a.Entries != 0 || a.ErrCount != 0 || a.Length != 0 || a.Depth != 0 || a.Compression != "" {
		c.Fatalf("abstract form of %s keeps details: %s", vt.Show(st), vt.Show(a))
	}
}
