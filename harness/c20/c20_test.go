package c20

import (
	"bytes"
	"encoding/json"
	"reflect"
	"testing"

	"github.com/qri-io/dataset"
	"verif/mx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a document with a subset of its fields set (every single field alone included), asked whether it is empty and encoded, alone and as a member of a dataset; non-trivial = at least one field set; distinct by document")
}

func TestC20(t *testing.T) {
	vt.Check(t, "subset", 24000, 480000, subset)
	vt.Check(t, "single", 12000, 240000, single)
	vt.Check(t, "refs", 6000, 120000, refs)
}

type emptier interface{ IsEmpty() bool }

func check(c *vt.C, v interface{}) {
	kind := mx.KindOf(v)
	want := mx.Empty(v)
	snap := mx.Copy(v)
	if got := v.(emptier).IsEmpty(); got != want {
		c.Fatalf("%s %s: empty=%v, want %v", kind, mx.Sprint(v), got, want)
	}
	if d := mx.Diff(snap, v, mx.DiffOpts{}); d != "" {
		c.Fatalf("asking whether a %s is empty changed it: %s", kind, d)
	}
	path := mx.Field(v, "Path").String()
	data, err := json.Marshal(v)
	if err != nil {
		c.Fatalf("encode: %v", err)
	}
	ref := path != "" && want
	form := func(data []byte, where string) {
		if isStr := len(data) > 0 && data[0] == '"'; isStr != ref {
			c.Fatalf("%s %s encoded %s as %s, want reference=%v", kind, mx.Sprint(v), where, data, ref)
		}
		if ref {
			w, _ := json.Marshal(path)
			if !bytes.Equal(w, data) {
				c.Fatalf("reference encoded as %s, want %s", data, w)
			}
		}
	}
	form(data, "alone")
	if kind != "dataset" {
		ds := &dataset.Dataset{Name: "n"}
		rt := reflect.TypeOf(*ds)
		for i := 0; i < rt.NumField(); i++ {
			if rt.Field(i).Type == reflect.TypeOf(v) {
				reflect.ValueOf(ds).Elem().Field(i).Set(reflect.ValueOf(v))
			}
		}
		if ds.IsEmpty() {
			c.Fatalf("dataset with a %s is empty", kind)
		}
		doc, err := json.Marshal(ds)
		if err != nil {
			c.Fatalf("encode: %v", err)
		}
		var m map[string]json.RawMessage
		if err := json.Unmarshal(doc, &m); err != nil {
			c.Fatalf("%v", err)
		}
		if _, ok := m[kind]; !ok {
			c.Fatalf("%s missing from %s", kind, doc)
		}
		form(m[kind], "in a dataset")
	}
	c.Labelf("%s empty=%v path=%v", kind, want, path != "")
	if mx.SetCount(v) > 0 {
		c.NonTrivial(mx.Sprint(v))
	}
	c.Sample("%s -> empty=%v, %s", mx.Sprint(v), want, data)
}

func subset(c *vt.C) {
	kind := vt.One(c.T, "kind", mx.Kinds...)
	check(c, mx.Gen(c.T, kind, mx.Opts{NoComponents: vt.Bool(c.T, "plain")}))
}

// single sets one field, and perhaps the path and kind identifier.
func single(c *vt.C) {
	kind := vt.One(c.T, "kind", mx.Kinds...)
	v := mx.New(kind)
	fields := mx.Fields(kind)
	i := vt.N(c.T, 0, len(fields), "field")
	switch {
	case i < len(fields):
		mx.GenField(c.T, v, fields[i], mx.Opts{})
	case kind == "meta":
		_ = v.(*dataset.Meta).SetArbitrary(mx.ArbKey(c.T), mx.Free(c.T, 1))
	}
	if vt.Bool(c.T, "withPath") {
		mx.GenField(c.T, v, "Path", mx.Opts{})
	}
	if vt.Chance(c.T, 3, "withQri") {
		mx.GenField(c.T, v, "Qri", mx.Opts{})
	}
	check(c, v)
}

// refs: a reference made from a path holds that path and nothing else.
func refs(c *vt.C) {
	path := vt.Str(c.T, vt.StrOpts{})
	for _, v := range []interface{}{dataset.NewDatasetRef(path), dataset.NewCommitRef(path), dataset.NewMetaRef(path), dataset.NewReadmeRef(path),
		dataset.NewStatsRef(path), dataset.NewStructureRef(path), dataset.NewTransformRef(path), dataset.NewVizRef(path)} {
		kind := mx.KindOf(v)
		if d := mx.Diff(mx.Ref(kind, path).Interface(), v, mx.DiffOpts{Skip: func(_, f string) bool { return f == "Qri" }}); d != "" {
			c.Fatalf("reference of a %s to %q: %s", kind, path, d)
		}
		check(c, v)
	}
	c.NonTrivial("ref", path)
}
