package c37

import (
	"reflect"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dstest"
	"verif/mx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a document (dataset, commit, meta, structure, readme, transform or viz) and an equal copy, a copy changed in one or a few fields, or another document, compared both ways with and without options; non-trivial = at least two fields set or the pair differs; distinct by pair")
}

func TestC37(t *testing.T) {
	vt.Check(t, "compare", 24000, 480000, compare)
	vt.Check(t, "shallow", 24000, 480000, shallow)
}

// dropped lists the fields each kind's comparison leaves out with transient
// values dropped.
var dropped = map[string]map[string]bool{
	"dataset":   {"Body": true, "BodyBytes": true, "Name": true, "Peername": true, "Path": true, "ProfileID": true, "NumVersions": true},
	"commit":    {"Path": true},
	"meta":      {"Path": true},
	"structure": {"Path": true},
}

func diff(a, b interface{}, o ...dstest.CompareOpts) string {
	switch x := a.(type) {
	case *dataset.Dataset:
		return dstest.CompareDatasets(x, b.(*dataset.Dataset), o...)
	case *dataset.Commit:
		return dstest.CompareCommits(x, b.(*dataset.Commit), o...)
	case *dataset.Meta:
		return dstest.CompareMetas(x, b.(*dataset.Meta), o...)
	}
	return dstest.CompareStructures(a.(*dataset.Structure), b.(*dataset.Structure), o...)
}

// fieldsOf lists the fields in which two documents certainly differ, and
// whether they may differ in how a value is held (an empty list for none, a
// number of another type, a time in another zone).
func fieldsOf(kind string, a, b interface{}) (differ []string, unsure bool) {
	for _, f := range mx.Fields(kind) {
		x, y := mx.New(kind), mx.New(kind)
		mx.Field(x, f).Set(mx.Field(a, f))
		mx.Field(y, f).Set(mx.Field(b, f))
		if mx.Diff(x, y, mx.DiffOpts{}) != "" {
			differ = append(differ, f)
		} else if !reflect.DeepEqual(mx.Field(a, f).Interface(), mx.Field(b, f).Interface()) {
			unsure = true
		}
	}
	return
}

// pair draws a document and one that is equal, changed or unrelated.
func pair(c *vt.C, kind string) (a, b interface{}) {
	o := mx.Opts{}
	a = mx.Gen(c.T, kind, o)
	switch vt.N(c.T, 0, 9, "pair") {
	case 0, 1, 2:
		b = mx.Copy(a)
	case 3:
		b = mx.Gen(c.T, kind, o)
	case 4:
		b = mx.New(kind)
	case 5, 6:
		b = mx.Copy(a)
		c.Labelf("tweak %v", mx.Tweak(c.T, b) != "")
	default:
		b = mx.Copy(a)
		fs := mx.Fields(kind)
		for i, n := 0, 1+vt.N(c.T, 0, 1, "changes"); i < n; i++ {
			f := fs[vt.N(c.T, 0, len(fs)-1, "field")]
			if sub := mx.Field(b, f); kind == "dataset" && sub.Kind() == reflect.Ptr && !sub.IsNil() && vt.Bool(c.T, "inner") {
				k := mx.KindOf(sub.Interface())
				sf := mx.Fields(k)
				mx.GenField(c.T, sub.Interface(), sf[vt.N(c.T, 0, len(sf)-1, "innerField")], o)
				continue
			}
			if vt.Bool(c.T, "clear") {
				mx.Field(b, f).Set(reflect.Zero(mx.Field(b, f).Type()))
			} else {
				mx.GenField(c.T, b, f, o)
			}
		}
	}
	if vt.Bool(c.T, "swap") {
		a, b = b, a
	}
	return
}

func compare(c *vt.C) {
	kind := []string{"dataset", "dataset", "commit", "meta", "structure"}[vt.N(c.T, 0, 4, "kind")]
	a, b := pair(c, kind)
	if vt.Chance(c.T, 20, "same") {
		b = a
	}
	differ, unsure := fieldsOf(kind, a, b)
	kept := []string{}
	for _, f := range differ {
		if !dropped[kind][f] {
			kept = append(kept, f)
		}
	}
	for _, f := range differ {
		c.Labelf("%s.%s", kind, f)
	}
	if mx.SetCount(a) > 1 || len(differ) > 0 {
		c.NonTrivial(mx.Sprint(a), mx.Sprint(b))
	}
	sa, sb := mx.Copy(a), mx.Copy(b)
	verdict := func(how string, want []string, o ...dstest.CompareOpts) {
		d, r := diff(a, b, o...), diff(b, a, o...)
		if (d == "") != (r == "") {
			c.Fatalf("%s compared%s one way: %q, the other way: %q", kind, how, vt.Trunc(d, 300), vt.Trunc(r, 300))
		}
		if len(want) > 0 && d == "" {
			c.Fatalf("%ss different in %v compare equal%s: %s and %s", kind, want, how, mx.Sprint(a), mx.Sprint(b))
		}
		if len(want) == 0 && !unsure && d != "" {
			c.Fatalf("%ss differing in %v compare different%s: %s", kind, differ, how, vt.Trunc(d, 600))
		}
	}
	verdict("", differ)
	verdict(" without transient values", kept, dstest.OptDropTransientValues(0))
	if x := mx.Diff(sa, a, mx.DiffOpts{}); x != "" {
		c.Fatalf("comparing changed the first %s: %s", kind, x)
	}
	if x := mx.Diff(sb, b, mx.DiffOpts{}); x != "" {
		c.Fatalf("comparing changed the second %s: %s", kind, x)
	}
	// a missing document differs from every one that has something in it
	none := reflect.Zero(reflect.TypeOf(a)).Interface()
	if diff(none, none) != "" {
		c.Fatalf("missing %ss compare different", kind)
	}
	if mx.Diff(a, mx.New(kind), mx.DiffOpts{}) != "" {
		if f, _ := fieldsOf(kind, a, mx.New(kind)); len(f) > 0 && (diff(none, a) == "" || diff(a, none) == "") {
			c.Fatalf("%s %s compares equal to a missing one", kind, mx.Sprint(a))
		}
	}
}

func same(a, b interface{}) bool {
	switch x := a.(type) {
	case *dataset.Readme:
		return x.ShallowCompare(b.(*dataset.Readme))
	case *dataset.Transform:
		return x.ShallowCompare(b.(*dataset.Transform))
	}
	return a.(*dataset.Viz).ShallowCompare(b.(*dataset.Viz))
}

func shallow(c *vt.C) {
	kind := []string{"readme", "transform", "viz"}[vt.N(c.T, 0, 2, "kind")]
	a, b := pair(c, kind)
	if vt.Chance(c.T, 5, "path") {
		mx.Field(b, "Path").SetString(vt.Str(c.T, vt.StrOpts{}))
	}
	differ, unsure := fieldsOf(kind, a, b)
	want := true
	for _, f := range differ {
		c.Labelf("%s.%s", kind, f)
		if f != "Path" {
			want = false
		}
	}
	if mx.SetCount(a) > 1 || len(differ) > 0 {
		c.NonTrivial(mx.Sprint(a), mx.Sprint(b))
	}
	sa, sb := mx.Copy(a), mx.Copy(b)
	ab, ba := same(a, b), same(b, a)
	if ab != ba {
		c.Fatalf("%s compared one way: %v, the other way: %v", kind, ab, ba)
	}
	if ab && !want {
		c.Fatalf("%ss different in %v compare equal: %s and %s", kind, differ, mx.Sprint(a), mx.Sprint(b))
	}
	if !ab && want && !unsure {
		c.Fatalf("%ss differing in %v compare different: %s and %s", kind, differ, mx.Sprint(a), mx.Sprint(b))
	}
	if x := mx.Diff(sa, a, mx.DiffOpts{}) + mx.Diff(sb, b, mx.DiffOpts{}); x != "" {
		c.Fatalf("comparing changed a %s: %s", kind, x)
	}
	none := reflect.Zero(reflect.TypeOf(a)).Interface()
	if !same(none, none) || same(a, none) || same(none, a) {
		c.Fatalf("%s and a missing one: %v %v %v", kind, same(none, none), same(a, none), same(none, a))
	}
}
