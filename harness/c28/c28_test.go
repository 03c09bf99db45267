package c28

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsio"
	"github.com/qri-io/dataset/dsstats"
	"github.com/qri-io/qfs"
	"verif/dx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a body of generated columns (numbers, text, booleans, nulls, nested) as rows of arrays, objects or scalars in a drawn format, its statistics compared with a direct computation; non-trivial = at least two rows with a value that is not null; distinct by rows")
}

func TestC28(t *testing.T) {
	vt.Check(t, "body", 25000, 500000, func(c *vt.C) { body(c, usual) })
	vt.Check(t, "large", 2000, 30000, func(c *vt.C) { body(c, long) })
	vt.Check(t, "wide", 300, 6000, func(c *vt.C) { body(c, wide) })
	vt.Check(t, "errors", 3000, 40000, errors)
	vt.Check(t, "nonfinite", 2000, 30000, nonfinite)
}

// nonfinite has infinities among the numbers, which CBOR bodies can hold.
func nonfinite(c *vt.C) {
	n := vt.N(c.T, 1, 60, "rows")
	var ents []dsio.Entry
	lo, hi := math.Inf(1), math.Inf(-1)
	infs := 0
	for i := 0; i < n; i++ {
		f := float64(vt.N(c.T, -500, 500, "value")) + 0.5
		if vt.Chance(c.T, 5, "infinite") {
			f = math.Inf([]int{-1, 1}[vt.N(c.T, 0, 1, "sign")])
			infs++
		}
		lo, hi = math.Min(lo, f), math.Max(hi, f)
		ents = append(ents, dsio.Entry{Index: i, Value: dx.Arr{f}})
	}
	st := dx.St("cbor", "array", "")
	data, err := dx.Write(st, ents)
	if err != nil {
		c.Fatalf("write: %v", err)
	}
	ds := &dataset.Dataset{Structure: st}
	ds.SetBodyFile(qfs.NewMemfileReader("body.cbor", vt.Chunks(c, data)))
	stats, err := dsstats.Calculate(ds)
	if err != nil {
		c.Fatalf("calculate: %v", err)
	}
	recs, ok := stats.Stats.([]map[string]interface{})
	if !ok || len(recs) != 1 {
		c.Fatalf("stats %v", stats.Stats)
	}
	if r := recs[0]; r["count"] != n || r["min"] != lo || r["max"] != hi {
		c.Fatalf("count %v, minimum %v, maximum %v of %s, want %d, %v, %v", r["count"], r["min"], r["max"], vt.Show(ents), n, lo, hi)
	}
	c.Labelf("infinite=%v", infs > 0)
	if infs > 0 && n > 1 {
		c.NonTrivial(vt.Show(ents))
	}
}

// sizes of bodies
const (
	usual = iota
	long
	wide
)

type column struct {
	kind  string
	next  func() interface{}
	nulls bool
	lead  int // leading nulls
}

var oddNames = []string{"", "É", "a.b", "count", "K0", " "}

// member names a member of an object. (Records of objects have no room for nested
// members named key or type, see known_findings.txt.)
func member(prefix string, i int, odd bool) string {
	if odd && i < len(oddNames) {
		return oddNames[i]
	}
	return fmt.Sprintf("%s%d", prefix, i)
}

// wideColumns gives very many plain columns, without drawing each.
func wideColumns(c *vt.C, csv bool) []column {
	var cols []column
	step := vt.N(c.T, 1, 4, "step")
	for i, n := 0, vt.N(c.T, 100, 1500, "columns"); i < n; i++ {
		i, turn := i, 0
		switch (i / step) % 4 {
		case 0:
			cols = append(cols, column{kind: "integer", next: func() interface{} { turn++; return int64(i + turn) }})
		case 1:
			cols = append(cols, column{kind: "string", next: func() interface{} { turn++; return fmt.Sprint("v", i, "_", turn%2) }})
		case 2:
			cols = append(cols, column{kind: "boolean", next: func() interface{} { turn++; return turn%2 == 0 }})
		case 3:
			cols = append(cols, column{kind: "number", next: func() interface{} { turn++; return float64(i) + 0.5 }})
		}
	}
	return cols
}

func genColumn(c *vt.C, csv, large bool, depth int) column {
	kinds := []string{"integer", "number", "string", "boolean", "null", "array", "object"}
	n := 6
	if depth == 0 {
		n = 4
	}
	if csv {
		n = 3
	}
	col := column{kind: kinds[vt.N(c.T, 0, n, "colKind")], nulls: !csv && vt.Chance(c.T, 3, "nulls")}
	few := vt.Bool(c.T, "few")
	var pool []interface{}
	var draw func() interface{}
	switch col.kind {
	case "integer":
		draw = func() interface{} {
			if vt.Bool(c.T, "small") {
				return int64(vt.N(c.T, -20, 20, "int"))
			}
			return vt.Int(c.T)
		}
	case "number":
		draw = func() interface{} {
			f := vt.Float(c.T)
			if math.Abs(f) > 1e290 {
				f = math.Copysign(1e290, f)
			}
			if f == math.Trunc(f) && math.Abs(f) < 1e18 {
				f += 0.5 // stays a float in every format
			}
			return f
		}
	case "string":
		draw = func() interface{} {
			s := vt.Str(c.T, vt.StrOpts{Simple: csv, NonEmpty: csv})
			if vt.Chance(c.T, 4, "long") {
				s = strings.Repeat(vt.One(c.T, "unit", "a", "ab", "é", "xyz"), vt.N(c.T, 10, 45, "repeat")) + vt.One(c.T, "end", "", "1", "2")
			}
			if csv && (strings.TrimSpace(s) == "" || strings.Contains(s, "\r")) {
				s = "x"
			}
			return s
		}
	case "boolean":
		draw = func() interface{} { return vt.Bool(c.T, "bool") }
	case "null":
		draw = func() interface{} { return nil }
	case "array":
		cols := genColumns(c, false, false, depth-1)
		if depth == 1 && vt.Chance(c.T, 30, "wideNested") {
			cols = wideColumns(c, false)
		}
		draw = func() interface{} {
			row := dx.Arr{}
			k := len(cols)
			if vt.Chance(c.T, 4, "shortNested") {
				k = vt.N(c.T, 0, k, "nestedLen")
			}
			for j := range cols[:k] {
				row = append(row, cols[j].value(c))
			}
			return row
		}
	case "object":
		odd := vt.Chance(c.T, 3, "oddNames")
		cols := genColumns(c, false, false, depth-1)
		wideObj := depth == 1 && vt.Chance(c.T, 30, "wideNested")
		if wideObj {
			cols = wideColumns(c, false)
		}
		draw = func() interface{} {
			row := dx.Obj{}
			for i := range cols {
				if wideObj || !vt.Chance(c.T, 5, "absent") {
					row[member("n", i, odd)] = cols[i].value(c)
				}
			}
			return row
		}
	}
	if few && depth >= 0 && col.kind != "array" && col.kind != "object" {
		for i, n := 0, vt.N(c.T, 1, 5, "pool"); i < n; i++ {
			pool = append(pool, draw())
		}
		col.next = func() interface{} { return pool[vt.N(c.T, 0, len(pool)-1, "of")] }
		return col
	}
	if large { // many distinct values without drawing each
		base, mod := vt.N(c.T, 1, 1000, "base"), vt.N(c.T, 20, 1200, "mod")
		if vt.Chance(c.T, 3, "edge") { // as many distinct values as figures hold
			base, mod = 0, []int{31, 32, 33, 64, 199, 200, 201}[vt.N(c.T, 0, 6, "edgeMod")]
		}
		if !csv && vt.Chance(c.T, 4, "lead") {
			col.lead = vt.N(c.T, 1, 2200, "leadNulls")
		}
		i := 0
		switch col.kind {
		case "integer":
			draw = func() interface{} { i++; return int64((i*i*base + i) % mod) }
		case "number":
			draw = func() interface{} { i++; return float64((i*i*base+i)%mod)*0.25 + 0.125 }
		case "string":
			often := vt.N(c.T, 2, 9, "often")
			alike := vt.Chance(c.T, 4, "alike")
			some := vt.Bool(c.T, "someOften")
			draw = func() interface{} {
				i++
				if some && i%often == 0 {
					return fmt.Sprint("often", i%3)
				}
				if alike { // the same up to the length that is shown
					return fmt.Sprintf("%050d", (i*i*base+i)%mod)
				}
				return fmt.Sprint("v", (i*i*base+i)%mod)
			}
		}
	}
	col.next = draw
	return col
}

func (x *column) value(c *vt.C) interface{} {
	if x.lead > 0 {
		x.lead--
		return nil
	}
	if x.nulls && vt.Chance(c.T, 3, "isNull") {
		return nil
	}
	return x.next()
}

func genColumns(c *vt.C, csv, large bool, depth int) []column {
	var cols []column
	for i, n := 0, vt.N(c.T, 1, 4, "columns"); i < n; i++ {
		cols = append(cols, genColumn(c, csv, large, depth))
	}
	return cols
}

// kindOf is the kind of column a first value makes.
func kindOf(v interface{}) string {
	switch v.(type) {
	case int64, float64:
		return "numeric"
	case string:
		return "string"
	case bool:
		return "boolean"
	case dx.Arr:
		return "array"
	case dx.Obj:
		return "object"
	}
	return "null"
}

// column statistics by direct computation; problems are reported as text.
func compare(vs []interface{}, got map[string]interface{}) string {
	kind := "null"
	var mine []interface{}
	for _, v := range vs {
		if kind == "null" {
			kind = kindOf(v)
		}
	}
	for _, v := range vs {
		if kindOf(v) == kind {
			mine = append(mine, v)
		}
	}
	g := map[string]interface{}{}
	for k, v := range got {
		g[k] = v
	}
	if ty, ok := g["type"]; ok {
		if ty != kind {
			return fmt.Sprintf("type %v, want %s", ty, kind)
		}
		delete(g, "type")
	}
	delete(g, "key")
	switch kind {
	case "array":
		recs, ok := g["values"].([]map[string]interface{})
		if !ok || len(g) != 1 {
			return fmt.Sprintf("nested array record %v", g)
		}
		return positions(mine, recs)
	case "object":
		keys := keysOf(mine)
		if len(keys) != len(g) {
			return fmt.Sprintf("nested object record has %d keys, want %v", len(g), keys)
		}
		for _, k := range keys {
			r, ok := g[k].(map[string]interface{})
			if !ok {
				return fmt.Sprintf("no record of nested key %s", k)
			}
			if d := compare(under(mine, k), r); d != "" {
				return k + ": " + d
			}
		}
		return ""
	}
	if g["count"] != len(mine) {
		return fmt.Sprintf("count %v, want %d", g["count"], len(mine))
	}
	delete(g, "count")
	switch kind {
	case "boolean":
		t := 0
		for _, v := range mine {
			if v.(bool) {
				t++
			}
		}
		if g["trueCount"] != t || g["falseCount"] != len(mine)-t {
			return fmt.Sprintf("%v, want %d true and %d false", g, t, len(mine)-t)
		}
		delete(g, "trueCount")
		delete(g, "falseCount")
	case "numeric":
		if d := numeric(mine, g); d != "" {
			return d
		}
		for _, k := range []string{"min", "max", "mean", "median", "histogram"} {
			delete(g, k)
		}
	case "string":
		if d := text(mine, g); d != "" {
			return d
		}
		for _, k := range []string{"minLength", "maxLength", "unique", "frequencies"} {
			delete(g, k)
		}
	}
	if len(g) > 0 {
		return fmt.Sprintf("further figures of a %s column: %v", kind, g)
	}
	return ""
}

func float(v interface{}) float64 {
	if i, ok := v.(int64); ok {
		return float64(i)
	}
	return v.(float64)
}

func numeric(vs []interface{}, g map[string]interface{}) string {
	lo, hi := math.Inf(1), math.Inf(-1)
	sum := new(big.Float).SetPrec(2400)
	abs := 0.0
	dist := map[float64]float64{}
	for _, v := range vs {
		f := float(v)
		lo, hi = math.Min(lo, f), math.Max(hi, f)
		sum.Add(sum, new(big.Float).SetFloat64(f))
		abs += math.Abs(f)
		if f == 0 {
			f = 0
		}
		dist[f]++
	}
	if g["min"] != lo && !(g["min"] == 0.0 && lo == 0) || g["max"] != hi && !(g["max"] == 0.0 && hi == 0) {
		return fmt.Sprintf("min %v max %v, want %v %v", g["min"], g["max"], lo, hi)
	}
	n := float64(len(vs))
	want, _ := sum.Quo(sum, new(big.Float).SetFloat64(n)).Float64()
	mean, ok := g["mean"].(float64)
	if !ok || !(math.Abs(mean-want) <= 1e-9*abs/n) {
		return fmt.Sprintf("mean %v, want %v", g["mean"], want)
	}
	h, ok := g["histogram"].(map[string][]float64)
	if !ok || len(h["bins"]) != len(h["frequencies"])+1 || len(h["frequencies"]) > 32 {
		return fmt.Sprintf("histogram %v", g["histogram"])
	}
	total := 0.0
	for i, f := range h["frequencies"] {
		if f < 0 || i > 0 && h["bins"][i] < h["bins"][i-1] {
			return fmt.Sprintf("histogram %v", h)
		}
		total += f
	}
	if total != n {
		return fmt.Sprintf("histogram frequencies sum to %v, want %v", total, n)
	}
	med, ok := g["median"].(float64)
	slack := 1e-9 * (hi - lo)
	if !ok || !(med >= lo-slack && med <= hi+slack) {
		return fmt.Sprintf("median %v outside %v to %v", g["median"], lo, hi)
	}
	if len(dist) <= 32 {
		var ds []float64
		for f := range dist {
			ds = append(ds, f)
		}
		sort.Float64s(ds)
		if len(ds) != len(h["frequencies"]) {
			return fmt.Sprintf("%d bins for %d values", len(h["frequencies"]), len(ds))
		}
		cum, wm, found := 0.0, ds[len(ds)-1], false
		for i, f := range ds {
			if h["bins"][i] != f || h["frequencies"][i] != dist[f] {
				return fmt.Sprintf("histogram %v, want %v", h, dist)
			}
			if !found && cum+dist[f]/2 > 0.4999999*n {
				wm, found = f, true
			}
			cum += dist[f]
		}
		if med != wm {
			return fmt.Sprintf("median %v, want %v of %v", med, wm, dist)
		}
	} else {
		// approximate: within a bin of the middle
		below, upTo := 0.0, 0.0
		for f, k := range dist {
			if f < med {
				below += k
			}
			if f <= med {
				upTo += k
			}
		}
		big := 0.0
		for _, f := range h["frequencies"] {
			big = math.Max(big, f)
		}
		if below > n/2+2*big+1 || upTo < n/2-2*big-1 {
			return fmt.Sprintf("median %v has %v of %v values below it", med, below, n)
		}
	}
	return ""
}

func text(vs []interface{}, g map[string]interface{}) string {
	lo, hi := math.MaxInt64, -1
	dist := map[string]int{}
	for _, v := range vs {
		s := v.(string)
		if len(s) < lo {
			lo = len(s)
		}
		if len(s) > hi {
			hi = len(s)
		}
		dist[s]++
	}
	if g["minLength"] != lo || g["maxLength"] != hi {
		return fmt.Sprintf("lengths %v to %v, want %d to %d", g["minLength"], g["maxLength"], lo, hi)
	}
	u, ok := g["unique"].(int)
	if tol := 2 + len(dist)*3/100; !ok || u < len(dist)-tol || u > len(dist)+tol {
		return fmt.Sprintf("unique %v of %d", g["unique"], len(dist))
	}
	fr, ok := g["frequencies"].(map[string]int)
	if !ok {
		return fmt.Sprintf("frequencies %v", g["frequencies"])
	}
	if len(dist) > 200 {
		if len(fr) > 200 || len(fr) == 0 {
			return fmt.Sprintf("%d frequencies", len(fr))
		}
		for k := range fr {
			if len(k) <= 40 && dist[k] == 0 {
				return fmt.Sprintf("frequency of %q, which does not occur", k)
			}
		}
		// what is frequent by far is there, with about its count
		for s, n := range dist {
			if slack := len(vs) / 20; len(s) <= 40 && n > slack && (fr[s] < n-slack || fr[s] > n+slack) {
				return fmt.Sprintf("frequency of %q is %d, want %d of %d", s, fr[s], n, len(vs))
			}
		}
		return ""
	}
	if len(fr) != len(dist) {
		return fmt.Sprintf("%d frequencies of %d values", len(fr), len(dist))
	}
	want := map[string][]int{}
	have := map[string][]int{}
	for s, n := range dist {
		k := s
		if len(s) > 40 {
			k = fmt.Sprintf("%s... %d chars", s[:40], len(s))
		}
		want[k] = append(want[k], n)
	}
	for s, n := range fr {
		k := s
		if len(s) > 40 {
			i := strings.LastIndex(s, " (")
			if i < 0 {
				return fmt.Sprintf("frequency of %q", s)
			}
			k = s[:i]
		}
		have[k] = append(have[k], n)
	}
	for k := range want {
		sort.Ints(want[k])
	}
	for k := range have {
		sort.Ints(have[k])
	}
	if !reflect.DeepEqual(want, have) {
		return fmt.Sprintf("frequencies %v, want %v", have, want)
	}
	return ""
}

func keysOf(rows []interface{}) []string {
	set := map[string]interface{}{}
	for _, r := range rows {
		for k := range r.(dx.Obj) {
			set[k] = true
		}
	}
	return vt.SortedKeys(set)
}

func under(rows []interface{}, key string) []interface{} {
	var out []interface{}
	for _, r := range rows {
		if v, ok := r.(dx.Obj)[key]; ok {
			out = append(out, v)
		}
	}
	return out
}

func positions(rows []interface{}, recs []map[string]interface{}) string {
	n := 0
	for _, r := range rows {
		if l := len(r.(dx.Arr)); l > n {
			n = l
		}
	}
	if len(recs) != n {
		return fmt.Sprintf("%d records, want %d", len(recs), n)
	}
	for i := 0; i < n; i++ {
		var vs []interface{}
		for _, r := range rows {
			if a := r.(dx.Arr); i < len(a) {
				vs = append(vs, a[i])
			}
		}
		if d := compare(vs, recs[i]); d != "" {
			return fmt.Sprintf("position %d: %s", i, d)
		}
	}
	return ""
}

// whole compares the records of a body with its entries.
func whole(vs []interface{}, recs []map[string]interface{}) string {
	kind := "null"
	var mine []interface{}
	for _, v := range vs {
		if kind == "null" {
			kind = kindOf(v)
		}
	}
	for _, v := range vs {
		if kindOf(v) == kind {
			mine = append(mine, v)
		}
	}
	for _, r := range recs {
		if _, ok := r["type"].(string); !ok {
			return fmt.Sprintf("record without type: %v", r)
		}
	}
	switch kind {
	case "array":
		return positions(mine, recs)
	case "object":
		keys := keysOf(mine)
		if len(keys) != len(recs) {
			return fmt.Sprintf("%d records for keys %v", len(recs), keys)
		}
		for i, k := range keys {
			if recs[i]["key"] != k {
				return fmt.Sprintf("record %d is of key %v, want %s", i, recs[i]["key"], k)
			}
			if d := compare(under(mine, k), recs[i]); d != "" {
				return k + ": " + d
			}
		}
		return ""
	}
	if len(vs) == 0 {
		if len(recs) != 0 {
			return fmt.Sprintf("records of nothing: %v", recs)
		}
		return ""
	}
	if len(recs) != 1 {
		return fmt.Sprintf("%d records of one column", len(recs))
	}
	return compare(vs, recs[0])
}

// goTypes gives numbers as other Go types that hold them.
func goTypes(v interface{}, turn *int) interface{} {
	*turn++
	switch x := v.(type) {
	case int64:
		switch *turn % 3 {
		case 0:
			return int(x)
		case 1:
			if int64(int32(x)) == x {
				return int32(x)
			}
		}
	case float64:
		if float64(float32(x)) == x && *turn%2 == 0 {
			return float32(x)
		}
	case dx.Arr:
		for i := range x {
			x[i] = goTypes(x[i], turn)
		}
	case dx.Obj:
		for _, k := range vt.SortedKeys(x) {
			x[k] = goTypes(x[k], turn)
		}
	}
	return v
}

func body(c *vt.C, how int) {
	large := how == long
	format := vt.One(c.T, "format", "json", "cbor", "ndjson", "csv")
	csv := format == "csv"
	shape := vt.N(c.T, 0, 3, "shape")
	if csv {
		shape = 0
	}
	cols := genColumns(c, csv, large, 1)
	n := vt.N(c.T, 0, 12, "rows")
	if how == wide {
		shape &= 1
		cols = wideColumns(c, csv)
		n = vt.N(c.T, 1, 4, "rows")
	}
	if large {
		n = vt.N(c.T, 150, 900, "rows")
		if vt.Chance(c.T, 6, "longer") {
			n = vt.N(c.T, 900, 2500, "rows")
			if vt.Chance(c.T, 8, "longest") { // of few columns without nested ones
				n = vt.N(c.T, 2500, 40000, "rows")
				cols = cols[:1]
				if csv || cols[0].kind == "array" || cols[0].kind == "object" {
					x, i := vt.N(c.T, 30, 400, "distinct"), 0
					cols[0] = column{kind: "integer", next: func() interface{} { i++; return int64(i * 7919 % x) }}
				}
			}
		}
		if shape >= 2 {
			cols = cols[:1]
		}
	}
	keyed := (format == "json" || format == "cbor") && vt.Bool(c.T, "keyed")
	odd := shape == 1 && vt.Chance(c.T, 3, "oddNames")
	var vs []interface{}
	var ents []dsio.Entry
	for i := 0; i < n; i++ {
		var v interface{}
		switch shape {
		case 0:
			row := dx.Arr{}
			for j := range cols {
				row = append(row, cols[j].value(c))
			}
			v = row
		case 1:
			row := dx.Obj{}
			for j := range cols {
				if how == wide {
					row[member("k", j, odd)] = cols[j].value(c)
				} else if !vt.Chance(c.T, 6, "absentKey") {
					row[member("k", (j*7)%5, odd)] = cols[j].value(c)
				}
			}
			v = row
		default:
			v = cols[0].value(c)
		}
		if !csv && !large && vt.Chance(c.T, 15, "nullRow") {
			v = nil
		}
		vs = append(vs, v)
		e := dsio.Entry{Index: i, Value: v}
		if keyed {
			e = dsio.Entry{Key: fmt.Sprintf("e%d", i), Value: v}
		}
		ents = append(ents, e)
	}
	st := dx.Noise(c, &dataset.Structure{Format: format, Compression: dx.Comp(c.T), Schema: dx.Obj{"type": "array"}})
	if keyed {
		st.Schema = dx.Obj{"type": "object"}
	}
	if csv {
		items := dx.Arr{}
		for i, x := range cols {
			items = append(items, dx.Obj{"title": fmt.Sprintf("c%d", i), "type": x.kind})
		}
		st.Schema = dx.Obj{"type": "array", "items": dx.Obj{"type": "array", "items": items}}
	}
	data, err := dx.Write(st, ents)
	if err != nil {
		c.Fatalf("write: %v", err)
	}
	ds := &dataset.Dataset{Structure: st}
	ds.SetBodyFile(qfs.NewMemfileReader("body."+format, vt.Chunks(c, data)))
	before := runtime.NumGoroutine()
	stats, err := dsstats.Calculate(ds)
	if err != nil {
		c.Fatalf("calculate: %v", err)
	}
	c.Settled(before, "calculating")
	if stats.Qri != dataset.KindStats.String() {
		c.Fatalf("kind %q", stats.Qri)
	}
	recs, ok := stats.Stats.([]map[string]interface{})
	if !ok {
		c.Fatalf("stats %T", stats.Stats)
	}
	if d := whole(vs, recs); d != "" {
		c.Fatalf("%s %s: %s", format, vt.Trunc(vt.Show(vs), 400), d)
	}
	if _, err := json.Marshal(stats); err != nil {
		c.Fatalf("encoding stats: %v", err)
	}
	// the accumulator directly, closed and asked repeatedly
	acc := dsstats.NewAccumulator(st)
	other := vt.Bool(c.T, "otherGoTypes")
	turn := 0
	for _, e := range ents {
		v := vt.Clone(e.Value)
		if other {
			v = goTypes(v, &turn)
		}
		if err := acc.WriteEntry(dsio.Entry{Index: e.Index, Key: e.Key, Value: v}); err != nil {
			c.Fatalf("write to accumulator: %v", err)
		}
		if vt.Chance(c.T, 20, "peek") {
			dsstats.ToMap(acc)
		}
	}
	var first []byte
	for i := 0; i < 3; i++ {
		if i < 2 {
			if err := acc.Close(); err != nil {
				c.Fatalf("close: %v", err)
			}
		}
		m := dsstats.ToMap(acc)
		if d := whole(vs, m); d != "" {
			c.Fatalf("accumulated, asked %d times, %s: %s", i+1, vt.Trunc(vt.Show(vs), 400), d)
		}
		b, _ := json.Marshal(m)
		if i > 0 && !bytes.Equal(first, b) {
			c.Fatalf("stats change from %s to %s", vt.Trunc(string(first), 300), vt.Trunc(string(b), 300))
		}
		first = b
	}
	c.Labelf("%s shape=%d", format, shape)
	if n > 1 {
		c.NonTrivial(vt.Show(vs))
	}
	c.Sample("%s %s", format, vt.Trunc(vt.Show(vs), 200))
}

func errors(c *vt.C) {
	if _, err := dsstats.Calculate(&dataset.Dataset{Structure: &dataset.Structure{Format: "json", Schema: dx.Obj{"type": "array"}}}); err == nil {
		c.Fatalf("stats without a body")
	}
	ds := &dataset.Dataset{}
	ds.SetBodyFile(qfs.NewMemfileBytes("body.json", []byte("[1]")))
	if _, err := dsstats.Calculate(ds); err == nil {
		c.Fatalf("stats without a structure")
	}
	st := dx.Noise(c, dx.St(vt.One(c.T, "format", "json", "cbor", "ndjson"), "array", dx.Comp(c.T)))
	var ents []dsio.Entry
	for i, n := 0, vt.N(c.T, 1, 8, "rows"); i < n; i++ {
		ents = append(ents, dsio.Entry{Value: dx.Arr{vt.Scalar(c.T, vt.ValOpts{}), int64(i)}})
	}
	data, err := dx.Write(st, ents)
	if err != nil {
		c.Fatalf("write: %v", err)
	}
	k := vt.N(c.T, 0, len(data)-1, "failAt")
	ds = &dataset.Dataset{Structure: st}
	ds.SetBodyFile(qfs.NewMemfileReader("body", &vt.Chunked{Data: data[:k], Err: vt.ErrFault}))
	before := runtime.NumGoroutine()
	defer c.Settled(before, "a failed calculation")
	if s, err := dsstats.Calculate(ds); err == nil {
		c.Fatalf("stats %v of a body whose reading fails after %d of %d bytes", s.Stats, k, len(data))
	}
	c.NonTrivial(data, k)
}
