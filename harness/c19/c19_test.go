package c19

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
	"verif/mx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a target and a list of sources (some missing, some the target itself) assigned in one or several calls, compared with a reflective overlay model, the sources compared with snapshots; non-trivial = some source field overlays or fills a target; distinct by target and sources")
}

func TestC19(t *testing.T) {
	vt.Check(t, "overlay", 24000, 480000, overlay)
	vt.Check(t, "copy", 8000, 160000, copyAll)
	vt.Check(t, "files", 6000, 120000, files)
}

// apply is the reference overlay of one source.
func apply(dst, src reflect.Value) {
	d, s := dst.Elem(), src.Elem()
	kind := mx.KindOf(dst.Interface())
	rt := d.Type()
	for i := 0; i < rt.NumField(); i++ {
		f := rt.Field(i)
		if f.PkgPath != "" || s.Field(i).IsZero() {
			continue
		}
		switch {
		case kind == "dataset" && f.Name == "ID":
			if d.Field(i).IsZero() {
				d.Field(i).Set(s.Field(i))
			}
		case kind == "dataset" && f.Type.Kind() == reflect.Ptr:
			if d.Field(i).IsNil() {
				d.Field(i).Set(reflect.New(f.Type.Elem()))
			}
			apply(d.Field(i), s.Field(i))
		case kind == "transform" && (f.Name == "Config" || f.Name == "Resources" || f.Name == "Secrets"):
			m := reflect.MakeMap(f.Type)
			for _, k := range d.Field(i).MapKeys() {
				m.SetMapIndex(k, d.Field(i).MapIndex(k))
			}
			for _, k := range s.Field(i).MapKeys() {
				m.SetMapIndex(k, s.Field(i).MapIndex(k))
			}
			d.Field(i).Set(m)
		default:
			d.Field(i).Set(s.Field(i))
		}
	}
	if m, ok := src.Interface().(*dataset.Meta); ok {
		if arb := m.Meta(); len(arb) > 0 {
			// replaced as a whole: rebuild the target without its arbitrary keys
			old := dst.Interface().(*dataset.Meta)
			fresh := &dataset.Meta{}
			fv := reflect.ValueOf(fresh).Elem()
			for i := 0; i < fv.NumField(); i++ {
				if fv.Type().Field(i).PkgPath == "" {
					fv.Field(i).Set(reflect.ValueOf(old).Elem().Field(i))
				}
			}
			for k, v := range arb {
				_ = fresh.SetArbitrary(k, v)
			}
			*old = *fresh
		}
	}
}

func call(dst interface{}, srcs ...interface{}) {
	fn := reflect.ValueOf(dst).MethodByName("Assign")
	var args []reflect.Value
	for _, s := range srcs {
		if s == nil {
			args = append(args, reflect.Zero(reflect.TypeOf(dst)))
		} else {
			args = append(args, reflect.ValueOf(s))
		}
	}
	fn.Call(args)
}

func gen(c *vt.C, kind string) interface{} {
	v := mx.Gen(c.T, kind, mx.Opts{})
	if m, ok := v.(*dataset.Meta); ok && vt.Bool(c.T, "read") {
		m.Meta() // reading must not matter
	}
	if ds, ok := v.(*dataset.Dataset); ok && ds.Meta != nil && vt.Bool(c.T, "read") {
		ds.Meta.Meta()
	}
	return v
}

func overlay(c *vt.C) {
	kind := mx.Kinds[0]
	if vt.Bool(c.T, "component") {
		kind = vt.One(c.T, "kind", mx.Components...)
	}
	c.Label(kind)
	dst := gen(c, kind)
	want := mx.Copy(dst)
	before := mx.Sprint(dst)
	n := vt.N(c.T, 0, 4, "sources")
	if vt.Chance(c.T, 60, "manySources") {
		n = vt.N(c.T, 5, 40, "sourcesMany")
	}
	var srcs, snaps []interface{}
	for i := 0; i < n; i++ {
		switch {
		case vt.Chance(c.T, 8, "nilSource"):
			srcs = append(srcs, nil)
			snaps = append(snaps, nil)
			continue
		case vt.Chance(c.T, 8, "self"):
			srcs = append(srcs, dst)
			snaps = append(snaps, nil)
			c.Label("self")
			continue // changes nothing
		case len(srcs) > 0 && srcs[0] != nil && srcs[0] != dst && vt.Chance(c.T, 8, "again"):
			srcs = append(srcs, srcs[0])
			snaps = append(snaps, snaps[0])
		default:
			s := gen(c, kind)
			srcs = append(srcs, s)
			snaps = append(snaps, mx.Copy(s))
		}
		apply(reflect.ValueOf(want), reflect.ValueOf(mx.Copy(snaps[len(snaps)-1])))
	}
	split := vt.N(c.T, 0, n, "split")
	call(dst, srcs[:split]...)
	call(dst, srcs[split:]...)
	if d := mx.Diff(want, dst, mx.DiffOpts{}); d != "" {
		c.Fatalf("%s assigned from %d sources: %s", kind, n, d)
	}
	intact := func(when string) {
		for i := range srcs {
			if snaps[i] == nil {
				continue
			}
			if d := mx.Diff(snaps[i], srcs[i], mx.DiffOpts{}); d != "" {
				c.Fatalf("%s: source %d modified %s: %s", kind, i, when, d)
			}
		}
	}
	intact("by assigning")
	// a later assignment to the target does not reach the sources either
	call(dst, gen(c, kind))
	if m, ok := dst.(*dataset.Meta); ok {
		_ = m.Set("later", true)
	}
	if ds, ok := dst.(*dataset.Dataset); ok && ds.Meta != nil {
		_ = ds.Meta.Set("later", true)
		_ = ds.Meta.Set("title", "later")
	}
	intact("by a later change of the target")
	after := mx.Sprint(want)
	if after != before {
		c.NonTrivial(before, after)
	}
	c.Sample("%s: %s -> %s", kind, vt.Trunc(before, 120), vt.Trunc(after, 120))
}

func copyAll(c *vt.C) {
	kind := vt.One(c.T, "kind", mx.Kinds...)
	src := gen(c, kind)
	snap := mx.Copy(src)
	dst := mx.New(kind)
	call(dst, src)
	if d := mx.Diff(snap, dst, mx.DiffOpts{}); d != "" {
		c.Fatalf("%s assigned to an empty one: %s", kind, d)
	}
	if mx.SetCount(snap) >= 2 {
		c.NonTrivial(mx.Sprint(snap))
	}
	call(dst)
	call(dst, nil, nil)
	call(dst, dst)
	if d := mx.Diff(snap, dst, mx.DiffOpts{}); d != "" {
		c.Fatalf("%s changed by assigning nothing or itself: %s", kind, d)
	}
	c.Sample("%s", mx.Sprint(snap))
}

type slot struct {
	name string
	set  func(v interface{}, f qfs.File)
	get  func(v interface{}) qfs.File
}

var slots = map[string][]slot{
	"dataset": {{"body", func(v interface{}, f qfs.File) { v.(*dataset.Dataset).SetBodyFile(f) }, func(v interface{}) qfs.File { return v.(*dataset.Dataset).BodyFile() }}},
	"readme": {
		{"script", func(v interface{}, f qfs.File) { v.(*dataset.Readme).SetScriptFile(f) }, func(v interface{}) qfs.File { return v.(*dataset.Readme).ScriptFile() }},
		{"rendered", func(v interface{}, f qfs.File) { v.(*dataset.Readme).SetRenderedFile(f) }, func(v interface{}) qfs.File { return v.(*dataset.Readme).RenderedFile() }},
	},
	"viz": {
		{"script", func(v interface{}, f qfs.File) { v.(*dataset.Viz).SetScriptFile(f) }, func(v interface{}) qfs.File { return v.(*dataset.Viz).ScriptFile() }},
		{"rendered", func(v interface{}, f qfs.File) { v.(*dataset.Viz).SetRenderedFile(f) }, func(v interface{}) qfs.File { return v.(*dataset.Viz).RenderedFile() }},
	},
	"transform": {{"script", func(v interface{}, f qfs.File) { v.(*dataset.Transform).SetScriptFile(f) }, func(v interface{}) qfs.File { return v.(*dataset.Transform).ScriptFile() }}},
}

// files checks that open files are overlaid like fields.
func files(c *vt.C) {
	kind := vt.One(c.T, "kind", "dataset", "readme", "viz", "transform")
	inDataset := kind != "dataset" && vt.Bool(c.T, "inDataset")
	n := vt.N(c.T, 1, 4, "docs")
	docs := make([]interface{}, n)
	names := make([][]string, n)
	want := make([]string, len(slots[kind]))
	desc := kind
	for i := range docs {
		docs[i] = mx.Gen(c.T, kind, mx.Opts{NoComponents: true})
		names[i] = make([]string, len(slots[kind]))
		for j, s := range slots[kind] {
			if vt.Bool(c.T, "file") {
				name := fmt.Sprintf("f%d%s", i, s.name)
				names[i][j] = name
				s.set(docs[i], qfs.NewMemfileBytes(name, []byte(name)))
				want[j] = name
				desc += " " + name
			}
		}
	}
	wrap := func(v interface{}) interface{} {
		if !inDataset {
			return v
		}
		ds := &dataset.Dataset{}
		switch x := v.(type) {
		case *dataset.Readme:
			ds.Readme = x
		case *dataset.Viz:
			ds.Viz = x
		case *dataset.Transform:
			ds.Transform = x
		}
		return ds
	}
	unwrap := func(v interface{}) interface{} {
		ds, ok := v.(*dataset.Dataset)
		if !ok || !inDataset {
			return v
		}
		return map[string]interface{}{"readme": ds.Readme, "viz": ds.Viz, "transform": ds.Transform}[kind]
	}
	var dst interface{}
	srcs := make([]interface{}, 0, n)
	if vt.Bool(c.T, "fresh") {
		dst = mx.New(kind)
		if inDataset {
			dst = &dataset.Dataset{}
		}
	} else {
		dst = wrap(docs[0])
	}
	for i := range docs {
		if i == 0 && dst != nil && unwrap(dst) == docs[0] {
			continue
		}
		srcs = append(srcs, wrap(docs[i]))
	}
	call(dst, srcs...)
	got := unwrap(dst)
	for j, s := range slots[kind] {
		name := func(f qfs.File) string {
			if f == nil {
				return ""
			}
			return f.FileName()
		}
		if g := name(s.get(got)); g != want[j] {
			c.Fatalf("%s: %s file is %q, want %q", desc, s.name, g, want[j])
		}
		for i := range docs {
			if docs[i] != got && name(s.get(docs[i])) != names[i][j] {
				c.Fatalf("%s: %s file of source %d changed", desc, s.name, i)
			}
		}
	}
	if desc != kind {
		c.NonTrivial(desc, inDataset, len(srcs))
	}
	c.Sample("%s inDataset=%v", desc, inDataset)
}
