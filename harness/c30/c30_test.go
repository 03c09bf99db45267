package c30

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dsdiff"
	"verif/mx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a pair of components, datasets or JSON objects (a value and an equal copy, or one with drawn changes, or unrelated, or missing) diffed and summarised in every format; non-trivial = the left side holds at least two top-level keys besides the kind; distinct by pair")
}

func TestC30(t *testing.T) {
	vt.Check(t, "component", 50000, 1000000, component)
	vt.Check(t, "dataset", 14000, 300000, datasets)
	vt.Check(t, "json", 40000, 800000, objects)
	vt.Check(t, "unencodable", 3000, 40000, unencodable)
}

var kinds = []string{"structure", "transform", "meta", "viz"} // as the datasets hold them

// order of the components in a summary of a dataset diff
var priority = []string{"structure", "transform", "meta", "viz"}

var formats = []string{"simple", "listKeys", "plusMinus", "plusMinusColor", "delta"}

func document(c *vt.C, v interface{}) map[string]interface{} {
	if reflect.ValueOf(v).IsNil() {
		v = mx.New(mx.KindOf(v))
	}
	data, err := v.(interface{ MarshalJSONObject() ([]byte, error) }).MarshalJSONObject()
	if err != nil {
		c.Fatalf("encode: %v", err)
	}
	return parse(c, data)
}

func parse(c *vt.C, data []byte) map[string]interface{} {
	var m map[string]interface{}
	if err := json.Unmarshal(data, &m); err != nil {
		c.Fatalf("%v in %s", err, data)
	}
	return m
}

// changed lists the top-level keys in which two documents differ.
func changed(a, b map[string]interface{}) (keys []string) {
	for k, v := range a {
		if w, ok := b[k]; !ok || !reflect.DeepEqual(v, w) {
			keys = append(keys, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	return keys
}

const (
	same = iota
	differ
	either
)

// verdict says what diffing two components must report.
func verdict(c *vt.C, a, b interface{}) (int, []string, sides) {
	kind := mx.KindOf(a)
	da, db := document(c, a), document(c, b)
	docs := sides{da, db}
	pa, _ := da["path"].(string)
	pb, _ := db["path"].(string)
	if kind != "structure" && pa == pb && len(pa) > 1 {
		return same, nil, docs
	}
	if kind == "transform" {
		sa, _ := da["scriptPath"].(string)
		sb, _ := db["scriptPath"].(string)
		if sa != "" && sb != "" {
			delete(da, "scriptPath")
			delete(db, "scriptPath")
		}
	}
	keys := changed(da, db)
	if len(keys) == 0 {
		return same, nil, docs
	}
	if kind == "meta" && mx.Empty(orNew(a)) && mx.Empty(orNew(b)) {
		return either, nil, docs // two references, or a reference and nothing
	}
	return differ, keys, docs
}

// sides are the two documents a diff compares.
type sides [2]map[string]interface{}

// direction checks that a diff tells the change from the first document to the second.
func (s sides) direction(c *vt.C, delta map[string]interface{}) {
	for k, v := range delta {
		old, had := s[0][k]
		now, has := s[1][k]
		l, ok := v.([]interface{})
		if !ok {
			continue // a change within the value
		}
		want := l
		switch {
		case !had && has:
			want = []interface{}{now}
		case had && !has:
			want = []interface{}{old, 0.0, 0.0}
		case had && has && len(l) == 2:
			want = []interface{}{old, now}
		case had && has && len(l) != 3: // three are the change of a text
			c.Fatalf("change of %q from %v to %v told as %v", k, old, now, l)
		}
		if !reflect.DeepEqual(l, want) {
			c.Fatalf("change of %q from %v (%v) to %v (%v) told as %v", k, old, had, now, has, l)
		}
	}
}

func orNew(v interface{}) interface{} {
	if reflect.ValueOf(v).IsNil() {
		return mx.New(mx.KindOf(v))
	}
	return v
}

func diff(a, b interface{}) (*dsdiff.SubDiff, error) {
	switch a := a.(type) {
	case *dataset.Structure:
		return dsdiff.DiffStructure(a, b.(*dataset.Structure))
	case *dataset.Transform:
		return dsdiff.DiffTransform(a, b.(*dataset.Transform))
	case *dataset.Meta:
		return dsdiff.DiffMeta(a, b.(*dataset.Meta))
	}
	return dsdiff.DiffViz(a.(*dataset.Viz), b.(*dataset.Viz))
}

// mutate changes some of the fields of a copy.
func mutate(c *vt.C, v interface{}) interface{} {
	v = mx.Copy(v)
	fields := mx.Fields(mx.KindOf(v))
	for i, n := 0, vt.N(c.T, 1, 3, "mutations"); i < n; i++ {
		if vt.Chance(c.T, 4, "tweak") {
			mx.Tweak(c.T, v)
			continue
		}
		f := fields[vt.N(c.T, 0, len(fields)-1, "field")]
		if vt.Chance(c.T, 4, "clear") {
			fv := mx.Field(v, f)
			fv.Set(reflect.Zero(fv.Type()))
			continue
		}
		mx.GenField(c.T, v, f, mx.Opts{})
	}
	return v
}

var paths = []string{"", "/mem/a", "/mem/b", "/mem/ab", "/ipfs/Qm", "/a", "/b"}

func pair(c *vt.C, kind string) (a, b interface{}) {
	gen := func() interface{} {
		v := mx.Gen(c.T, kind, mx.Opts{})
		if p := mx.Field(v, "Path"); p.String() != "" {
			p.SetString(paths[vt.N(c.T, 0, len(paths)-1, "path")])
		}
		return v
	}
	a = gen()
	switch vt.N(c.T, 0, 9, "pair") {
	case 0, 1:
		b = mx.Copy(a)
	case 2:
		b = gen()
	case 3:
		b = reflect.Zero(reflect.TypeOf(a)).Interface()
	default:
		b = mutate(c, a)
		p, q := mx.Field(a, "Path").String(), mx.Field(b, "Path")
		if len(q.String()) == 1 {
			q.SetString("")
		}
		if len(p) > 1 && vt.Chance(c.T, 6, "related path") {
			// a stored path much like the other one
			q.SetString([]string{p + "b", p[:len(p)-1] + "c", strings.ToUpper(p), p + "/", " " + p}[vt.N(c.T, 0, 4, "relation")])
		}
	}
	if vt.Bool(c.T, "swap") {
		a, b = b, a
	}
	return a, b
}

// unencodable: a component that has no JSON form cannot be compared.
func unencodable(c *vt.C) {
	kind := []string{"structure", "transform", "meta"}[vt.N(c.T, 0, 2, "kind")]
	a, b := pair(c, kind)
	if reflect.ValueOf(a).IsNil() {
		a, b = b, a
	}
	for _, v := range []interface{}{a, b} {
		if !reflect.ValueOf(v).IsNil() {
			mx.Field(v, "Path").SetString("")
		}
	}
	bad := []interface{}{make(chan int), func() {}, math.NaN(), math.Inf(1), complex(1, 2)}[vt.N(c.T, 0, 4, "bad")]
	switch x := a.(type) {
	case *dataset.Structure:
		if vt.Bool(c.T, "inSchema") {
			x.Schema = map[string]interface{}{"type": "array", "x": bad}
		} else {
			x.FormatConfig = map[string]interface{}{"x": []interface{}{bad}}
		}
	case *dataset.Transform:
		x.Config = map[string]interface{}{"x": bad}
	case *dataset.Meta:
		if err := x.Set("odd_key", bad); err != nil {
			c.Fatalf("set: %v", err)
		}
	}
	if vt.Bool(c.T, "swap") {
		a, b = b, a
	}
	var d *dsdiff.SubDiff
	var err error
	c.NoPanic("diff", func() { d, err = diff(a, b) })
	if err == nil {
		c.Fatalf("a %s holding %T was compared: %v", kind, bad, d)
	}
	x, y := &dataset.Dataset{}, &dataset.Dataset{}
	for i, v := range []interface{}{a, b} {
		ds := []*dataset.Dataset{x, y}[i]
		switch z := v.(type) {
		case *dataset.Structure:
			ds.Structure = z
		case *dataset.Transform:
			ds.Transform = z
		case *dataset.Meta:
			ds.Meta = z
		}
	}
	c.NoPanic("diff of datasets", func() { _, err = dsdiff.DiffDatasets(x, y, nil) })
	if err == nil {
		c.Fatalf("datasets with a %s holding %T were compared", kind, bad)
	}
	// a diff that was never made
	c.NoPanic("no diff", func() {
		if d != nil {
			return
		}
		if d.Modified() || len(d.Deltas()) != 0 {
			c.Fatalf("no diff is modified")
		}
	})
	c.NonTrivial(fmt.Sprintf("%s %T %v", kind, bad, d))
	c.Sample("%s holding %T", kind, bad)
}

func clone(v interface{}) interface{} {
	if reflect.ValueOf(v).IsNil() {
		return v
	}
	return mx.Copy(v)
}

func unchanged(c *vt.C, snap, v interface{}, what string) {
	if reflect.ValueOf(v).IsNil() {
		return
	}
	if d := mx.Diff(snap, v, mx.DiffOpts{}); d != "" {
		c.Fatalf("diffing changed its %s side: %s", what, d)
	}
}

func component(c *vt.C) {
	kind := kinds[vt.N(c.T, 0, len(kinds)-1, "kind")]
	a, b := pair(c, kind)
	sa, sb := clone(a), clone(b)
	what, keys, docs := verdict(c, a, b)
	var d *dsdiff.SubDiff
	var err error
	c.NoPanic("diff", func() { d, err = diff(a, b) })
	if err != nil {
		c.Fatalf("diff: %v", err)
	}
	unchanged(c, sa, a, "left")
	unchanged(c, sb, b, "right")
	judge(c, d, kind, what, keys, docs)
	c.Labelf("%s %s keys=%d", kind, []string{"same", "differ", "either"}[what], min(len(keys), 3))
	nontrivial(c, a, b)
}

func nontrivial(c *vt.C, a, b interface{}) {
	if !reflect.ValueOf(a).IsNil() && len(document(c, a)) > 2 {
		s := mx.Sprint(a) + "|"
		if !reflect.ValueOf(b).IsNil() {
			s += mx.Sprint(b)
		}
		c.NonTrivial(s)
	}
}

// judge checks a diff and all its summaries.
func judge(c *vt.C, d *dsdiff.SubDiff, kind string, what int, keys []string, docs sides) {
	var mod bool
	n := 0
	c.NoPanic("reading the diff", func() { mod = d.Modified(); n = len(d.Deltas()) })
	if what == either {
		if mod {
			what = differ
		} else {
			what = same
		}
	} else if what == differ {
		if !mod || n != len(keys) {
			c.Fatalf("%s differs in %q, but the diff says modified=%v with %d changes", kind, keys, mod, n)
		}
	} else if mod || n != 0 {
		c.Fatalf("%s is unchanged, but the diff says modified=%v with %d changes", kind, mod, n)
	}
	var data []byte
	var err error
	c.NoPanic("encoding the diff", func() { data, err = json.Marshal(d) })
	if err != nil {
		c.Fatalf("encoding the diff: %v", err)
	}
	var list []json.RawMessage
	if err := json.Unmarshal(data, &list); err != nil || len(list) != n {
		c.Fatalf("diff with %d changes encoded as %s", n, data)
	}
	for _, how := range formats {
		var s string
		c.NoPanic("summary "+how, func() { s, err = d.SummarizeToString(how) })
		if err != nil {
			c.Fatalf("summary %s: %v", how, err)
		}
		if what == same {
			if s != "" {
				c.Fatalf("summary %s of no change: %q", how, s)
			}
			continue
		}
		if s == "" {
			c.Fatalf("summary %s of %d changes is empty", how, n)
		}
		plural := "s"
		if n == 1 {
			plural = ""
		}
		switch title := strings.Title(kind); how {
		case "simple":
			if want := fmt.Sprintf("%s Changed. (%d change%s)", title, n, plural); s != want {
				c.Fatalf("summary %q, want %q", s, want)
			}
		case "listKeys":
			if want := fmt.Sprintf("%s: %d change%s\n\t- modified ", title, n, plural); !strings.HasPrefix(s, want) {
				c.Fatalf("summary %q, want prefix %q", s, want)
			}
			for _, k := range keys {
				if !strings.Contains(s, k) {
					c.Fatalf("summary %q does not name %q", s, k)
				}
			}
		case "delta":
			m := parse(c, []byte(s))
			if keys != nil {
				if got := vt.SortedKeys(m); !reflect.DeepEqual(got, keys) {
					c.Fatalf("delta names %q, want %q", got, keys)
				}
			}
			docs.direction(c, m)
		default:
			for _, k := range keys {
				if !strings.Contains(s, fmt.Sprintf(`"%s": `, k)) {
					c.Fatalf("summary %s does not name %q:\n%s", how, k, s)
				}
			}
			if color := strings.Contains(s, "\x1b[30;4"); how == "plusMinusColor" && !color {
				// a change of order alone shows no coloured line
				if !movedOnly(s) {
					c.Fatalf("no colour in %q", s)
				}
			}
		}
	}
	for _, how := range []string{"", "nonsense"} {
		if s, err := d.SummarizeToString(how); s != "" || err != nil {
			c.Fatalf("summary in format %q: %q, %v", how, s, err)
		}
	}
}

// movedOnly tells whether no line is added or removed. Texts are printed as they
// are, so one with line ends makes lines of its own, and nothing can be told.
func movedOnly(s string) bool {
	marked := false
	for _, l := range strings.Split(s, "\n") {
		if strings.Count(l, `"`)%2 == 1 {
			return true
		}
		marked = marked || strings.HasPrefix(l, "+ ") || strings.HasPrefix(l, "- ")
	}
	return !marked
}

func datasets(c *vt.C) {
	a, b := &dataset.Dataset{}, &dataset.Dataset{}
	if vt.Bool(c.T, "full") {
		a = mx.Gen(c.T, "dataset", mx.Opts{NoComponents: true}).(*dataset.Dataset)
		b = mx.Copy(a).(*dataset.Dataset)
		if vt.Chance(c.T, 3, "own") {
			b = mx.Gen(c.T, "dataset", mx.Opts{NoComponents: true}).(*dataset.Dataset)
		}
	}
	left, right := map[string]interface{}{}, map[string]interface{}{}
	for _, k := range kinds {
		if vt.Chance(c.T, 3, "without") {
			z := reflect.Zero(reflect.TypeOf(mx.New(k))).Interface()
			left[k], right[k] = z, z
			continue
		}
		left[k], right[k] = pair(c, k)
	}
	fill := func(ds *dataset.Dataset, m map[string]interface{}) {
		ds.Structure = m["structure"].(*dataset.Structure)
		ds.Transform = m["transform"].(*dataset.Transform)
		ds.Meta = m["meta"].(*dataset.Meta)
		ds.Viz = m["viz"].(*dataset.Viz)
	}
	fill(a, left)
	fill(b, right)
	sa, sb := mx.Copy(a), mx.Copy(b)
	var res map[string]*dsdiff.SubDiff
	var err error
	c.NoPanic("diff", func() { res, err = dsdiff.DiffDatasets(a, b, nil) })
	if err != nil {
		c.Fatalf("diff: %v", err)
	}
	unchanged(c, sa, a, "left")
	unchanged(c, sb, b, "right")
	n := 0
	for k := range res {
		if left[k] == nil {
			c.Fatalf("diff of %q reported", k)
		}
	}
	first := ""
	for _, k := range priority {
		what, keys, docs := verdict(c, left[k], right[k])
		d := res[k]
		if d == nil {
			if what == differ {
				c.Fatalf("%s differs in %q, but has no diff", k, keys)
			}
			continue
		}
		judge(c, d, k, what, keys, docs)
		if d.Modified() {
			n++
			if first == "" {
				first = k
			}
		}
	}
	for _, how := range formats {
		var got, want string
		c.NoPanic("summary "+how, func() { got, err = dsdiff.MapDiffsToString(res, how) })
		if err != nil {
			c.Fatalf("summary %s: %v", how, err)
		}
		if first != "" {
			want, _ = res[first].SummarizeToString(how)
		}
		if got != want {
			c.Fatalf("summary %s is %q, want that of %q: %q", how, got, first, want)
		}
	}
	c.Labelf("dataset changed=%d first=%s", n, first)
	if n > 0 {
		c.NonTrivial(mx.Sprint(a) + "|" + mx.Sprint(b))
	}
}

func objects(c *vt.C) {
	o := vt.ValOpts{Depth: 3, Width: 4, Str: vt.StrOpts{Max: 40}}
	if vt.Chance(c.T, 100, "bigTexts") {
		o.Str.Big = 200000
	}
	a := vt.Object(c.T, o, vt.N(c.T, 0, 6, "size"))
	var b map[string]interface{}
	switch vt.N(c.T, 0, 3, "pair") {
	case 0:
		b = vt.Clone(a).(map[string]interface{})
	case 1:
		b = vt.Object(c.T, o, vt.N(c.T, 0, 6, "size"))
	default:
		b = vt.Clone(a).(map[string]interface{})
		for i, n := 0, vt.N(c.T, 1, 3, "changes"); i < n; i++ {
			k := "new"
			if ks := vt.SortedKeys(b); len(ks) > 0 {
				k = ks[vt.N(c.T, 0, len(ks)-1, "key")]
			}
			switch vt.N(c.T, 0, 4, "change") {
			case 0:
				delete(b, k)
			case 1:
				b[k+"x"] = vt.Value(c.T, o)
			case 2: // deep
				switch v := b[k].(type) {
				case []interface{}:
					if len(v) > 1 && vt.Bool(c.T, "swap") {
						v[0], v[1] = v[1], v[0]
					} else {
						b[k] = append(v, vt.Value(c.T, o))
					}
				case map[string]interface{}:
					v["deep"] = vt.Value(c.T, o)
				case string:
					b[k] = v + strings.Repeat("y", vt.N(c.T, 1, 40, "more"))
				default:
					b[k] = []interface{}{v}
				}
			default:
				b[k] = vt.Value(c.T, o)
			}
		}
	}
	da, err := json.Marshal(a)
	if err != nil {
		c.Skip("not JSON")
	}
	db, err := json.Marshal(b)
	if err != nil {
		c.Skip("not JSON")
	}
	docs := sides{parse(c, da), parse(c, db)}
	keys := changed(docs[0], docs[1])
	what := same
	if len(keys) > 0 {
		what = differ
	}
	sa, sb := append([]byte(nil), da...), append([]byte(nil), db...)
	var d *dsdiff.SubDiff
	c.NoPanic("diff", func() { d, err = dsdiff.DiffJSON(da, db, "data") })
	if err != nil {
		c.Fatalf("diff: %v", err)
	}
	judge(c, d, "data", what, keys, docs)
	if !bytes.Equal(sa, da) || !bytes.Equal(sb, db) {
		c.Fatalf("diffing changed its input")
	}
	// a malformed side is an error
	if cut := vt.N(c.T, 0, len(da)-1, "cut"); true {
		if _, err := dsdiff.DiffJSON(da[:cut], db, "data"); err == nil {
			c.Fatalf("diff of %q succeeded", da[:cut])
		}
		if _, err := dsdiff.DiffJSON(db, da[:cut], "data"); err == nil {
			c.Fatalf("diff against %q succeeded", da[:cut])
		}
	}
	c.Labelf("json keys=%d", min(len(keys), 3))
	if len(a) > 1 {
		c.NonTrivial(string(da) + string(db))
	}
}
