package c21

import (
	"reflect"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
	"verif/mx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a generated document whose transient or derived values are dropped once and again, compared field by field with a table; non-trivial = a field to drop and a field to keep are both set; distinct by document")
}

func TestC21(t *testing.T) {
	vt.Check(t, "transient", 16000, 320000, func(c *vt.C) { drop(c, "DropTransientValues", transient, false) })
	vt.Check(t, "derived", 20000, 400000, func(c *vt.C) { drop(c, "DropDerivedValues", derived, true) })
	vt.Check(t, "both", 8000, 160000, both)
}

type table map[string][]string

// transient lists the fields documented as transient.
var transient = table{
	"dataset":   {"Body", "BodyBytes", "Name", "Path", "Peername", "ProfileID", "NumVersions"},
	"commit":    {"Path"},
	"meta":      {"Path"},
	"readme":    {"Path", "Text"},
	"structure": {"Path"},
	"transform": {"Path", "Secrets", "Text"},
	"viz":       {"Path", "Text"},
}

// derived lists the fields documented as set on save.
var derived = table{
	"dataset":   {"Path", "Qri"},
	"commit":    {"Path", "Qri"},
	"meta":      {"Path", "Qri"},
	"readme":    {"Path", "Qri"},
	"stats":     {"Path", "Qri"},
	"structure": {"Checksum", "Depth", "ErrCount", "Entries", "Length", "Path", "Qri"},
	"transform": {"Path", "Qri"},
	"viz":       {"Path", "Qri"},
}

func clear(v interface{}, tb table, deep bool) (dropped int) {
	kind := mx.KindOf(v)
	for _, f := range tb[kind] {
		fv := mx.Field(v, f)
		if !fv.IsZero() {
			dropped++
		}
		fv.Set(reflect.Zero(fv.Type()))
	}
	if ds, ok := v.(*dataset.Dataset); ok && deep {
		rv := reflect.ValueOf(ds).Elem()
		for i := 0; i < rv.NumField(); i++ {
			if f := rv.Field(i); rv.Type().Field(i).PkgPath == "" && f.Kind() == reflect.Ptr && !f.IsNil() {
				dropped += clear(f.Interface(), tb, true)
			}
		}
	}
	return dropped
}

func call(v interface{}, method string) {
	reflect.ValueOf(v).MethodByName(method).Call(nil)
}

func gen(c *vt.C, kind string) interface{} {
	v := mx.Gen(c.T, kind, mx.Opts{})
	if !vt.Bool(c.T, "file") {
		return v
	}
	f := func(n string) qfs.File { return qfs.NewMemfileBytes(n, []byte(n)) }
	switch x := v.(type) {
	case *dataset.Dataset:
		x.SetBodyFile(f("b"))
		if x.Readme != nil {
			x.Readme.SetScriptFile(f("rs"))
		}
		if x.Viz != nil {
			x.Viz.SetRenderedFile(f("vr"))
		}
	case *dataset.Readme:
		x.SetScriptFile(f("s"))
		x.SetRenderedFile(f("r"))
	case *dataset.Viz:
		x.SetScriptFile(f("s"))
		x.SetRenderedFile(f("r"))
	case *dataset.Transform:
		x.SetScriptFile(f("s"))
	}
	return v
}

// files lists the open files of a document.
func files(v interface{}) []qfs.File {
	switch x := v.(type) {
	case *dataset.Dataset:
		fs := []qfs.File{x.BodyFile()}
		if x.Readme != nil {
			fs = append(fs, files(x.Readme)...)
		}
		if x.Viz != nil {
			fs = append(fs, files(x.Viz)...)
		}
		return fs
	case *dataset.Readme:
		return []qfs.File{x.ScriptFile(), x.RenderedFile()}
	case *dataset.Viz:
		return []qfs.File{x.ScriptFile(), x.RenderedFile()}
	case *dataset.Transform:
		return []qfs.File{x.ScriptFile()}
	}
	return nil
}

func drop(c *vt.C, method string, tb table, deep bool) {
	var kinds []string
	for _, k := range mx.Kinds {
		if _, ok := tb[k]; ok {
			kinds = append(kinds, k)
		}
	}
	kind := "dataset"
	if vt.Bool(c.T, "component") {
		kind = vt.One(c.T, "kind", kinds...)
	}
	v := gen(c, kind)
	want := mx.Copy(v)
	before := mx.Sprint(v)
	total := mx.SetCount(v)
	n := clear(want, tb, deep)
	open := files(v)
	for round := 1; round <= 2; round++ {
		call(v, method)
		if now := files(v); !reflect.DeepEqual(open, now) {
			c.Fatalf("%s of a %s, round %d: open files %v, were %v", method, kind, round, now, open)
		}
		if d := mx.Diff(want, v, mx.DiffOpts{}); d != "" {
			c.Fatalf("%s of a %s, round %d: %s\nbefore: %s", method, kind, round, d, before)
		}
	}
	c.Label(kind)
	if n > 0 && mx.SetCount(want) > 0 && total > 1 {
		c.NonTrivial(before)
	}
	c.Sample("%s of %s", method, before)
}

// both drops in either order with the same result.
func both(c *vt.C) {
	kind := vt.One(c.T, "kind", "dataset", "commit", "meta", "readme", "structure", "transform", "viz")
	v := gen(c, kind)
	w := mx.Copy(v)
	want := mx.Copy(v)
	n := clear(want, transient, false) + clear(want, derived, true)
	call(v, "DropTransientValues")
	call(v, "DropDerivedValues")
	call(w, "DropDerivedValues")
	call(w, "DropTransientValues")
	if d := mx.Diff(want, v, mx.DiffOpts{}); d != "" {
		c.Fatalf("%s, transient first: %s", kind, d)
	}
	if d := mx.Diff(want, w, mx.DiffOpts{}); d != "" {
		c.Fatalf("%s, derived first: %s", kind, d)
	}
	if n > 0 && mx.SetCount(want) > 0 {
		c.NonTrivial(mx.Sprint(want), n)
	}
}
