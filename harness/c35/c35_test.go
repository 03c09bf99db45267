package c35

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/generate"
	"github.com/qri-io/dataset/tabular"
	"verif/dx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a tabular schema (or one broken in one place), options and a number of rows drawn from the generator, or a seeded value generator and a number of values; non-trivial = at least one column and two rows, or at least 16 values; distinct by schema, options and row count")
}

func TestC35(t *testing.T) {
	vt.Check(t, "rows", 30000, 600000, rows)
	vt.Check(t, "refuse", 10000, 200000, refuse)
	vt.Check(t, "values", 10000, 200000, values)
	vt.Check(t, "written", 6000, 120000, written)
	vt.Check(t, "long", 12, 200, long)
}

var known = []string{"string", "boolean", "number", "integer", "object", "array", "null"}

// isType says whether v is a value of the named type.
func isType(v interface{}, name string, max int) bool {
	switch name {
	case "string":
		s, ok := v.(string)
		return ok && len([]rune(s)) < max
	case "boolean":
		_, ok := v.(bool)
		return ok
	case "number":
		switch x := v.(type) {
		case float64:
			return !math.IsNaN(x) && !math.IsInf(x, 0)
		case int, int64:
			return true
		}
		return false
	case "integer":
		switch v.(type) {
		case int, int64:
			return true
		}
		return false
	case "object":
		_, ok := v.(map[string]interface{})
		return ok
	case "array":
		_, ok := v.([]interface{})
		return ok
	case "null":
		return v == nil
	}
	// a type this package knows nothing of: any value will do
	if s, ok := v.(string); ok {
		return len([]rune(s)) < max
	}
	switch v.(type) {
	case nil, bool, float64, int, int64, map[string]interface{}, []interface{}:
		return true
	}
	return false
}

func anyType(v interface{}, names []string, max int) bool {
	for _, n := range names {
		if isType(v, n, max) {
			return true
		}
	}
	return false
}

// table draws a tabular schema and the types accepted in each column.
func table(c *vt.C, plain bool) (*dataset.Structure, [][]string) {
	n := vt.N(c.T, 0, 6, "columns")
	if vt.Chance(c.T, 40, "wide") {
		n = vt.N(c.T, 20, 100, "wideColumns")
		if vt.Chance(c.T, 6, "wider") {
			n = vt.N(c.T, 100, 600, "widerColumns")
		}
	}
	if plain && n == 0 {
		n = 1
	}
	items := []interface{}{}
	types := [][]string{}
	name := func() string {
		if !plain && vt.Chance(c.T, 10, "odd") {
			return []string{"", "custom", "String", "int", "any"}[vt.N(c.T, 0, 4, "oddType")]
		}
		return known[vt.N(c.T, 0, len(known)-1, "type")]
	}
	for i := 0; i < n; i++ {
		col := map[string]interface{}{"title": fmt.Sprintf("c%d", i)}
		k := vt.N(c.T, 0, 9, "form")
		switch {
		case plain || k < 6:
			s := name()
			col["type"] = s
			types = append(types, []string{s})
		case k < 8:
			l := []interface{}{}
			ts := []string{}
			for j, m := 0, vt.N(c.T, 1, 4, "types"); j < m; j++ {
				s := name()
				l = append(l, s)
				ts = append(ts, s)
			}
			col["type"] = l
			types = append(types, ts)
		case k == 8: // no usable type: columns default to strings
			if vt.Bool(c.T, "emptyList") {
				col["type"] = []interface{}{}
			}
			types = append(types, []string{"string"})
		default:
			types = append(types, []string{"string"})
			items = append(items, []interface{}{nil, "string", 3.0, true}[vt.N(c.T, 0, 3, "notObject")])
			continue
		}
		if vt.Chance(c.T, 6, "more") {
			col["description"] = "d"
			col["maximum"] = 3.0
		}
		items = append(items, col)
	}
	st := &dataset.Structure{Format: "json", Schema: map[string]interface{}{
		"type":  "array",
		"items": map[string]interface{}{"type": "array", "items": items},
	}}
	return st, types
}

func copySt(st *dataset.Structure) *dataset.Structure {
	cp := *st
	if st.Schema != nil {
		cp.Schema = vt.Clone(st.Schema).(map[string]interface{})
	}
	return &cp
}

func rows(c *vt.C) {
	st, types := table(c, false)
	before := copySt(st)
	seeded, short := vt.Bool(c.T, "seed"), vt.Bool(c.T, "short")
	n := vt.N(c.T, 0, 12, "rows")
	if vt.Chance(c.T, 20, "many") {
		n = vt.N(c.T, 80, 300, "manyRows")
	}
	opts := []func(*generate.Config){}
	if seeded {
		opts = append(opts, generate.AssignSeed)
	}
	max := 64
	if short {
		opts = append(opts, generate.AssignMaxLen)
		max = 8
	}
	if len(opts) == 2 && vt.Bool(c.T, "swap") {
		opts[0], opts[1] = opts[1], opts[0]
	}
	c.Labelf("seeded=%v short=%v", seeded, short)
	if len(types) > 0 && n > 1 {
		c.NonTrivial(vt.Show(st.Schema), seeded, short, n)
	}
	c.Sample(vt.Trunc(vt.Show(st.Schema), 300))
	draw := func() []dsio.Entry {
		g, err := generate.NewTabularGenerator(st, opts...)
		if err != nil {
			c.Fatalf("generator for a tabular schema %s: %v", vt.Show(st.Schema), err)
		}
		if !reflect.DeepEqual(g.Structure(), before) {
			c.Fatalf("generator's structure %s, given %s", vt.Show(g.Structure()), vt.Show(before))
		}
		ents := []dsio.Entry{}
		for i := 0; i < n; i++ {
			e, err := g.ReadEntry()
			if err != nil {
				c.Fatalf("row %d of %s: %v", i, vt.Show(st.Schema), err)
			}
			ents = append(ents, e)
		}
		if err := g.Close(); err != nil {
			c.Fatalf("close: %v", err)
		}
		return ents
	}
	ents := draw()
	trues, falses := make([]int, len(types)), make([]int, len(types))
	lengths := make([]map[int]bool, len(types))
	values := make([]map[interface{}]bool, len(types))
	for i := range types {
		lengths[i], values[i] = map[int]bool{}, map[interface{}]bool{}
	}
	for i, e := range ents {
		if e.Index != i || e.Key != "" {
			c.Fatalf("row %d has position %d and key %q", i, e.Index, e.Key)
		}
		row, ok := e.Value.([]interface{})
		if !ok || len(row) != len(types) {
			c.Fatalf("row %d is %s, want %d values", i, vt.Show(e.Value), len(types))
		}
		for j, v := range row {
			if !anyType(v, types[j], max) {
				c.Fatalf("row %d column %d holds %s, column types %q, strings shorter than %d", i, j, vt.Show(v), types[j], max)
			}
			switch x := v.(type) {
			case bool:
				if x {
					trues[j]++
				} else {
					falses[j]++
				}
			case string:
				lengths[j][len([]rune(x))] = true
			case int, int64, float64:
				values[j][x] = true
			}
		}
	}
	// rows drawn earlier are not changed by later ones: kept rows still pass the
	// same test, and an equal generator gives equal ones
	if seeded {
		if again := draw(); !reflect.DeepEqual(ents, again) {
			c.Fatalf("two generators with the same seed, schema %s: %s and %s", vt.Show(st.Schema), vt.Trunc(vt.Show(ents), 600), vt.Trunc(vt.Show(again), 600))
		}
	}
	// chance of a false alarm is below 2^-75
	if n >= 80 {
		for j, ts := range types {
			if len(ts) != 1 {
				continue
			}
			switch ts[0] {
			case "boolean":
				if trues[j] == 0 || falses[j] == 0 {
					c.Fatalf("%d booleans in column %d: %d true, %d false", n, j, trues[j], falses[j])
				}
			case "string":
				if len(lengths[j]) < 2 {
					c.Fatalf("%d strings in column %d all have the same length %v", n, j, lengths[j])
				}
			case "number", "integer":
				if len(values[j]) < n/2 {
					c.Fatalf("%d %ss in column %d: only %d different ones", n, ts[0], j, len(values[j]))
				}
			}
		}
		c.Label("long")
	}
	if !reflect.DeepEqual(st, before) {
		c.Fatalf("generating changed the structure: %s, was %s", vt.Show(st), vt.Show(before))
	}
}

func refuse(c *vt.C) {
	var sch map[string]interface{}
	switch vt.N(c.T, 0, 5, "break") {
	case 0:
	case 1:
		sch = map[string]interface{}{}
	case 2:
		sch = map[string]interface{}{"type": []interface{}{"object", "string", "", 1.0, nil, []interface{}{"array"}}[vt.N(c.T, 0, 5, "type")],
			"items": map[string]interface{}{"type": "array", "items": []interface{}{}}}
	case 3:
		sch = map[string]interface{}{"type": "array"}
	case 4:
		sch = map[string]interface{}{"type": "array", "items": vt.Value(c.T, vt.ValOpts{Depth: 1})}
		if m, ok := sch["items"].(map[string]interface{}); ok {
			delete(m, "items")
		}
	case 5:
		sch = map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array",
			"items": []interface{}{nil, "a", 1.0, map[string]interface{}{"type": "string"}}[vt.N(c.T, 0, 3, "items")]}}
	}
	c.NonTrivial(vt.Show(sch))
	g, err := generate.NewTabularGenerator(&dataset.Structure{Format: "json", Schema: sch})
	if err == nil {
		c.Fatalf("generator for a schema that is no table %s: %v", vt.Show(sch), g)
	}
	if !errors.Is(err, tabular.ErrInvalidTabularSchema) {
		c.Fatalf("refusal of %s: %v", vt.Show(sch), err)
	}
}

const alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func values(c *vt.C) {
	seed := int64(vt.N(c.T, 0, 1<<30, "seed"))
	max := vt.N(c.T, 1, 20, "max")
	if vt.Chance(c.T, 10, "long") {
		max = vt.N(c.T, 21, 400, "longMax")
	}
	n := vt.N(c.T, 1, 120, "n")
	name := append([]string{"", "any", "custom"}, known...)[vt.N(c.T, 0, len(known)+2, "type")]
	if n >= 16 {
		c.NonTrivial(seed, max, n, name)
	}
	c.Labelf("type %s", name)
	draw := func() []interface{} {
		g := &generate.ValueGenerator{Rand: rand.New(rand.NewSource(seed)), MaxStringLength: max}
		vs := []interface{}{}
		for i := 0; i < n; i++ {
			vs = append(vs, g.Type(name))
		}
		return vs
	}
	a, b := draw(), draw()
	if !reflect.DeepEqual(a, b) {
		c.Fatalf("seed %d type %q: %s and then %s", seed, name, vt.Trunc(vt.Show(a), 400), vt.Trunc(vt.Show(b), 400))
	}
	kinds := map[string]bool{}
	for i, v := range a {
		if !isType(v, name, max) {
			c.Fatalf("seed %d max %d: value %d of type %q is %s", seed, max, i, name, vt.Show(v))
		}
		if s, ok := v.(string); ok && strings.Trim(s, alnum) != "" {
			c.Fatalf("seed %d: string %q is not alphanumeric", seed, s)
		}
		if k, ok := v.(int); ok && k < 0 {
			c.Fatalf("seed %d: integer %d below zero", seed, k)
		}
		kinds[fmt.Sprintf("%T", v)] = true
	}
	// objects and arrays can be filled without showing up in others
	for i, v := range a {
		switch x := v.(type) {
		case map[string]interface{}:
			x["filled"] = i
		}
	}
	for i, v := range a {
		if x, ok := v.(map[string]interface{}); ok && x["filled"] != i {
			c.Fatalf("objects %d and %v of one generator are the same map", i, x["filled"])
		}
	}
	// the seed is an input, so a fixed sequence decides this: no alarm by bad
	// luck that a rerun would not repeat, and at n >= 100 its chance is tiny
	if n >= 100 {
		switch name {
		case "boolean":
			t := 0
			for _, v := range a {
				if v == true {
					t++
				}
			}
			if t == 0 || t == n {
				c.Fatalf("seed %d: %d of %d booleans are true", seed, t, n)
			}
		case "", "any", "custom":
			if len(kinds) < 3 {
				c.Fatalf("seed %d: %d values of no given type are all among %v", seed, n, kinds)
			}
		}
	}
}

// long: a generator goes on for as long as it is asked to.
func long(c *vt.C) {
	name := []string{"boolean", "integer", "null", "string"}[vt.N(c.T, 0, 3, "type")]
	st := &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "array",
		"items": map[string]interface{}{"type": "array", "items": []interface{}{map[string]interface{}{"title": "a", "type": name}}}}}
	n := vt.N(c.T, 1000, 150000, "rows")
	c.NonTrivial(name, n)
	c.Labelf("long %s", name)
	opts := []func(*generate.Config){generate.AssignMaxLen}
	if vt.Bool(c.T, "seed") {
		opts = append(opts, generate.AssignSeed)
	}
	g, err := generate.NewTabularGenerator(st, opts...)
	if err != nil {
		c.Fatalf("generator: %v", err)
	}
	trues := 0
	seen := map[interface{}]bool{}
	for i := 0; i < n; i++ {
		e, err := g.ReadEntry()
		if err != nil {
			c.Fatalf("row %d: %v", i, err)
		}
		row, ok := e.Value.([]interface{})
		if e.Index != i || e.Key != "" || !ok || len(row) != 1 || !isType(row[0], name, 8) {
			c.Fatalf("row %d of one %s column is %s", i, name, vt.Show(e))
		}
		if row[0] == true {
			trues++
		}
		if name == "integer" {
			seen[row[0]] = true
		}
	}
	if name == "boolean" && (trues < n/5 || trues > n-n/5) {
		c.Fatalf("%d of %d booleans are true", trues, n)
	}
	if name == "integer" && len(seen) < n/2 {
		c.Fatalf("%d integers, only %d different ones", n, len(seen))
	}
}

// written sends generated rows through a writer and reads them back: they
// are rows of the schema they were generated from.
func written(c *vt.C) {
	st, types := table(c, true)
	st.Format = []string{"json", "cbor", "csv"}[vt.N(c.T, 0, 2, "format")]
	n := vt.N(c.T, 1, 10, "rows")
	if st.Format == "csv" {
		// cells of these types read back as themselves
		items := st.Schema["items"].(map[string]interface{})["items"].([]interface{})
		for i := range types {
			switch types[i][0] {
			case "null", "object", "array", "string":
				types[i][0] = []string{"number", "integer", "boolean"}[i%3]
				items[i].(map[string]interface{})["type"] = types[i][0]
			}
		}
	}
	c.Labelf("format %s", st.Format)
	if n > 1 {
		c.NonTrivial(vt.Show(st), n)
	}
	g, err := generate.NewTabularGenerator(st, generate.AssignSeed)
	if err != nil {
		c.Fatalf("generator for %s: %v", vt.Show(st.Schema), err)
	}
	for i := vt.N(c.T, 0, 40, "skipped"); i > 0; i-- {
		g.ReadEntry()
	}
	buf := &bytes.Buffer{}
	w, err := dsio.NewEntryWriter(st, buf)
	if err != nil {
		c.Fatalf("writer: %v", err)
	}
	want := []dsio.Entry{}
	for i := 0; i < n; i++ {
		e, err := g.ReadEntry()
		if err != nil {
			c.Fatalf("row %d: %v", i, err)
		}
		want = append(want, e)
		if err := w.WriteEntry(e); err != nil {
			c.Fatalf("write %s: %v", vt.Show(e), err)
		}
	}
	if err := w.Close(); err != nil {
		c.Fatalf("close: %v", err)
	}
	got, err := dx.Read(st, bytes.NewReader(buf.Bytes()), n+2)
	if err != nil {
		c.Fatalf("reading %s: %v", vt.Trunc(buf.String(), 400), err)
	}
	if d := dx.DiffEntries(want, got, false, false, vt.CmpOpts{}); d != "" {
		c.Fatalf("generated rows of %s written as %s: %s", vt.Show(st.Schema), st.Format, d)
	}
}
