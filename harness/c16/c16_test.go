package c16

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
	"verif/mx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a generated document (dataset or component) encoded and decoded in its plain or object form, or a bare path decoded over an existing document; non-trivial = at least two fields set; distinct by encoded bytes")
}

func TestC16(t *testing.T) {
	vt.Check(t, "roundtrip", 24000, 480000, roundTrip)
	vt.Check(t, "object", 10000, 200000, object)
	vt.Check(t, "ref", 6000, 120000, ref)
	vt.Check(t, "helpers", 8000, 160000, helpers)
	vt.Check(t, "written", 8000, 160000, written)
	vt.Check(t, "broken", 6000, 120000, broken)
}

func skipSecrets(kind, field string) bool { return kind == "transform" && field == "Secrets" }

func files(c *vt.C, v interface{}) {
	f := func() qfs.File { return qfs.NewMemfileBytes("f.txt", []byte("file")) }
	if !vt.Bool(c.T, "files") {
		return
	}
	switch x := v.(type) {
	case *dataset.Dataset:
		x.SetBodyFile(f())
		if x.Readme != nil {
			files(c, x.Readme)
		}
		if x.Viz != nil {
			files(c, x.Viz)
		}
		if x.Transform != nil {
			files(c, x.Transform)
		}
	case *dataset.Readme:
		x.SetScriptFile(f())
		x.SetRenderedFile(f())
	case *dataset.Viz:
		x.SetScriptFile(f())
		x.SetRenderedFile(f())
	case *dataset.Transform:
		x.SetScriptFile(f())
	}
}

func gen(c *vt.C) (string, interface{}) {
	kind := mx.Kinds[0]
	if vt.Bool(c.T, "component") {
		kind = mx.Kinds[vt.N(c.T, 1, len(mx.Kinds)-1, "kind")]
	}
	c.Label(kind)
	return kind, mx.Gen(c.T, kind, mx.Opts{})
}

func noSecrets(c *vt.C, data []byte) {
	var tree interface{}
	if err := json.Unmarshal(data, &tree); err != nil {
		c.Fatalf("encoding is not JSON: %v\n%s", err, data)
	}
	m, ok := tree.(map[string]interface{})
	if !ok {
		return
	}
	objs := []interface{}{m, m["transform"]}
	for _, o := range objs {
		if mm, ok := o.(map[string]interface{}); ok {
			if q, _ := mm["qri"].(string); strings.HasPrefix(q, "md") {
				continue
			}
			if _, has := mm["secrets"]; has {
				c.Fatalf("secrets serialised: %s", data)
			}
		}
	}
}

func roundTrip(c *vt.C) {
	kind, v := gen(c)
	snap := mx.Copy(v)
	plain, err := json.Marshal(v)
	if err != nil {
		c.Fatalf("encode %s: %v", kind, err)
	}
	files(c, v)
	data, err := json.Marshal(v)
	if err != nil {
		c.Fatalf("encode %s with files: %v", kind, err)
	}
	if !bytes.Equal(data, plain) {
		c.Fatalf("encoding again with open files differs:\n%s\n%s", plain, data)
	}
	if d := mx.Diff(snap, v, mx.DiffOpts{}); d != "" {
		c.Fatalf("encoding changed the value: %s", d)
	}
	if kind == "transform" || kind == "dataset" {
		noSecrets(c, data)
	}
	got := mx.New(kind)
	if vt.Chance(c.T, 3, "over") {
		got = mx.Gen(c.T, kind, mx.Opts{})
		c.Label("over existing")
	}
	if err := json.Unmarshal(data, got); err != nil {
		c.Fatalf("decode %s: %v\n%s", kind, err, data)
	}
	o := mx.DiffOpts{Skip: skipSecrets, RefQri: true, FillQri: true}
	if d := mx.Diff(snap, got, o); d != "" {
		c.Fatalf("round trip: %s\n%s", d, data)
	}
	again, err := json.Marshal(got)
	if err != nil {
		c.Fatalf("re-encode %s: %v", kind, err)
	}
	if !bytes.Equal(data, again) && !onlySecrets(snap) {
		c.Fatalf("re-encoding differs:\n%s\n%s", data, again)
	}
	if mx.SetCount(snap) >= 2 {
		c.NonTrivial(data)
	}
	c.Sample("%s", data)
}

type objecter interface{ MarshalJSONObject() ([]byte, error) }

func object(c *vt.C) {
	kind := mx.Kinds[vt.N(c.T, 1, len(mx.Kinds)-1, "kind")]
	v := mx.Gen(c.T, kind, mx.Opts{})
	snap := mx.Copy(v)
	files(c, v)
	data, err := v.(objecter).MarshalJSONObject()
	if err != nil {
		c.Fatalf("encode %s: %v", kind, err)
	}
	if len(data) == 0 || data[0] != '{' {
		c.Fatalf("object form of a %s is not an object: %s", kind, data)
	}
	if d := mx.Diff(snap, v, mx.DiffOpts{}); d != "" {
		c.Fatalf("encoding changed the value: %s", d)
	}
	if kind == "transform" {
		noSecrets(c, data)
	}
	got := mx.New(kind)
	if err := json.Unmarshal(data, got); err != nil {
		c.Fatalf("decode %s: %v\n%s", kind, err, data)
	}
	if d := mx.Diff(snap, got, mx.DiffOpts{Skip: skipSecrets, FillQri: true}); d != "" {
		c.Fatalf("round trip of the object form: %s\n%s", d, data)
	}
	var m map[string]interface{}
	if err := json.Unmarshal(data, &m); err != nil {
		c.Fatalf("%v", err)
	}
	wantQri := mx.Field(snap, "Qri").String()
	if wantQri == "" {
		wantQri = mx.KindString(kind)
	}
	if m["qri"] != wantQri {
		c.Fatalf("%s: kind identifier %v in the object form, want %q: %s", kind, m["qri"], wantQri, data)
	}
	if mx.SetCount(snap) >= 2 {
		c.NonTrivial(data)
	}
	c.Sample("%s", data)
}

// ref decodes a bare path over an existing document, alone and as a member.
func ref(c *vt.C) {
	kind := vt.One(c.T, "kind", mx.Kinds...)
	v := mx.Gen(c.T, kind, mx.Opts{})
	n := mx.SetCount(v)
	path := mx.Text(c.T, mx.Opts{})
	data, _ := json.Marshal(path)
	if err := json.Unmarshal(data, v); err != nil {
		c.Fatalf("decode a bare path as %s: %v", kind, err)
	}
	want := mx.New(kind)
	mx.Field(want, "Path").SetString(path)
	if d := mx.Diff(want, v, mx.DiffOpts{}); d != "" {
		c.Fatalf("bare path decoded as %s: %s", kind, d)
	}
	out, err := json.Marshal(v)
	if err != nil || !bytes.Equal(out, data) {
		c.Fatalf("reference of a %s encodes as %s (%v), want %s", kind, out, err, data)
	}
	if kind != "dataset" {
		ds := &dataset.Dataset{}
		doc, _ := json.Marshal(map[string]interface{}{kind: path})
		if err := json.Unmarshal(doc, ds); err != nil {
			c.Fatalf("decode %s: %v", doc, err)
		}
		field := strings.ToUpper(kind[:1]) + kind[1:]
		wds := &dataset.Dataset{}
		mx.Field(wds, field).Set(mx.Ref(kind, path))
		if d := mx.Diff(wds, ds, mx.DiffOpts{}); d != "" {
			c.Fatalf("reference in a dataset: %s", d)
		}
	}
	if n >= 2 {
		c.NonTrivial(kind, data)
	}
	c.Sample("%s over a %s with %d fields", data, kind, n)
}

// helpers exercises the Unmarshal* functions, which take a value, a pointer or bytes.
func helpers(c *vt.C) {
	kind := vt.One(c.T, "kind", "dataset", "commit", "readme", "structure", "transform", "viz")
	v := mx.Gen(c.T, kind, mx.Opts{})
	snap := mx.Copy(v)
	form := vt.N(c.T, 0, 3, "form")
	var in interface{} = v
	o := mx.DiffOpts{}
	switch form {
	case 1:
		in = deref(v)
	case 2:
		data, err := json.Marshal(v)
		if err != nil {
			c.Fatalf("%v", err)
		}
		in = data
		o = mx.DiffOpts{Skip: skipSecrets, RefQri: true, FillQri: true}
	case 3:
		in = vt.Int(c.T)
		if vt.Bool(c.T, "bad") {
			in = []byte("{")
		}
	}
	got, err := unmarshal(kind, in)
	if form == 3 {
		if err == nil {
			c.Fatalf("%s from %T %v: no error", kind, in, in)
		}
		return
	}
	if err != nil {
		c.Fatalf("%s from %T: %v", kind, in, err)
	}
	if d := mx.Diff(snap, got, o); d != "" {
		c.Fatalf("%s from %T: %s", kind, in, d)
	}
	if mx.SetCount(snap) >= 2 {
		c.NonTrivial(kind, form, mx.Sprint(snap))
	}
}

func deref(v interface{}) interface{} {
	switch x := v.(type) {
	case *dataset.Dataset:
		return *x
	case *dataset.Commit:
		return *x
	case *dataset.Readme:
		return *x
	case *dataset.Structure:
		return *x
	case *dataset.Transform:
		return *x
	case *dataset.Viz:
		return *x
	}
	panic("kind")
}

func unmarshal(kind string, in interface{}) (interface{}, error) {
	switch kind {
	case "dataset":
		return dataset.UnmarshalDataset(in)
	case "commit":
		return dataset.UnmarshalCommit(in)
	case "readme":
		return dataset.UnmarshalReadme(in)
	case "structure":
		return dataset.UnmarshalStructure(in)
	case "transform":
		return dataset.UnmarshalTransform(in)
	case "viz":
		return dataset.UnmarshalViz(in)
	}
	panic(kind)
}

// onlySecrets finds a transform of a path and secrets: without the secrets, which are
// not serialised, it is a bare reference.
func onlySecrets(v interface{}) bool {
	if ds, ok := v.(*dataset.Dataset); ok {
		return ds.Transform != nil && onlySecrets(ds.Transform)
	}
	tf, ok := v.(*dataset.Transform)
	if !ok || tf.Secrets == nil {
		return false
	}
	bare := mx.Copy(tf).(*dataset.Transform)
	bare.Secrets = nil
	return mx.Empty(bare)
}

// jsonName is the name a field is encoded under.
func jsonName(v interface{}, field string) string {
	f, _ := reflect.TypeOf(v).Elem().FieldByName(field)
	return strings.Split(f.Tag.Get("json"), ",")[0]
}

// rewrite writes a document out as a person might: members in another order, some left
// out (and reset in the document), space between tokens, resources as plain paths.
func rewrite(c *vt.C, v interface{}, data []byte) []byte {
	var m map[string]json.RawMessage
	if err := json.Unmarshal(data, &m); err != nil {
		return data // a reference
	}
	kind := mx.KindOf(v)
	var fields []string
	for _, f := range mx.Fields(kind) {
		if _, ok := m[jsonName(v, f)]; ok {
			fields = append(fields, f)
		}
	}
	for _, f := range fields {
		n, fv := jsonName(v, f), mx.Field(v, f)
		if vt.Chance(c.T, 4, "leaveOut") || f == "Qri" && vt.Bool(c.T, "leaveOutKind") {
			delete(m, n)
			fv.Set(reflect.Zero(fv.Type()))
			continue
		}
		if fv.Kind() == reflect.Ptr && fv.Type().Elem().PkgPath() == "github.com/qri-io/dataset" && f != "Author" && f != "License" && f != "Schema" {
			if !fv.IsNil() {
				m[n] = rewrite(c, fv.Interface(), m[n])
			}
		}
		if rs, ok := fv.Interface().(map[string]*dataset.TransformResource); ok {
			out := map[string]interface{}{}
			for k, r := range rs {
				if out[k] = r; r != nil && vt.Bool(c.T, "plainResource") {
					out[k] = r.Path
				}
			}
			m[n], _ = json.Marshal(out)
		}
	}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for i := range keys {
		j := vt.N(c.T, i, len(keys)-1, "order")
		keys[i], keys[j] = keys[j], keys[i]
	}
	sp := func() string { return vt.One(c.T, "space", "", "", " ", "\n\t", "\r\n") }
	b := &bytes.Buffer{}
	b.WriteString(sp() + "{" + sp())
	for i, k := range keys {
		if i > 0 {
			b.WriteString("," + sp())
		}
		name, _ := json.Marshal(k)
		fmt.Fprintf(b, "%s%s:%s%s", name, sp(), sp(), m[k])
	}
	b.WriteString(sp() + "}" + sp())
	return b.Bytes()
}

// written decodes documents that no encoder wrote.
func written(c *vt.C) {
	kind, v := gen(c)
	data, err := json.Marshal(v)
	if err != nil {
		c.Fatalf("encode %s: %v", kind, err)
	}
	if len(data) == 0 || data[0] != '{' {
		return
	}
	data = rewrite(c, v, data)
	got := mx.New(kind)
	if vt.Bool(c.T, "over") {
		got = mx.Gen(c.T, kind, mx.Opts{})
	}
	if vt.Bool(c.T, "direct") {
		err = got.(json.Unmarshaler).UnmarshalJSON(data)
	} else {
		err = json.Unmarshal(data, got)
	}
	if err != nil {
		c.Fatalf("decode %s: %v\n%s", kind, err, data)
	}
	if d := mx.Diff(v, got, mx.DiffOpts{Skip: skipSecrets, RefQri: true, FillQri: true}); d != "" {
		c.Fatalf("decoding a document written by hand: %s\n%s", d, data)
	}
	if mx.SetCount(v) >= 2 {
		c.NonTrivial(data)
	}
	c.Sample("%s", data)
}

// broken decodes documents that are cut or have a member of the wrong type: an error,
// and the document decoded over stays as it was.
func broken(c *vt.C) {
	kind, v := gen(c)
	data, err := json.Marshal(v)
	if err != nil || len(data) == 0 || data[0] != '{' {
		return
	}
	if vt.Bool(c.T, "cut") {
		data = data[:vt.N(c.T, 0, len(data)-1, "at")]
	} else {
		var m map[string]json.RawMessage
		if err := json.Unmarshal(data, &m); err != nil {
			c.Fatalf("%v", err)
		}
		var fields []string
		for _, f := range mx.Fields(kind) {
			if k := mx.Field(v, f).Kind(); k != reflect.Interface && jsonName(v, f) != "-" && jsonName(v, f) != "" {
				fields = append(fields, f)
			}
		}
		f := vt.One(c.T, "field", fields...)
		bad := "[[1]]"
		switch mx.Field(v, f).Kind() {
		case reflect.String, reflect.Slice, reflect.Map, reflect.Bool, reflect.Ptr, reflect.Struct:
			bad = "17"
		case reflect.Int:
			bad = vt.One(c.T, "notInt", `"17"`, "1.5", "[]")
		}
		if f == "Resources" && vt.Bool(c.T, "badResource") {
			bad = vt.One(c.T, "resource", `{"a":17}`, `{"a":{"path":5}}`, `{"a":[]}`, `{"a":"p","b":{"path":[]}}`, `{"a":true}`)
		}
		m[jsonName(v, f)] = json.RawMessage(bad)
		data, _ = json.Marshal(m)
	}
	got := mx.Gen(c.T, kind, mx.Opts{})
	snap := mx.Copy(got)
	if vt.Bool(c.T, "direct") {
		err = got.(json.Unmarshaler).UnmarshalJSON(data)
	} else {
		err = json.Unmarshal(data, got)
	}
	if err == nil {
		c.Fatalf("%s decoded without error from %s", kind, data)
	}
	if d := mx.Diff(snap, got, mx.DiffOpts{}); d != "" {
		c.Fatalf("%s changed by a document that was refused: %s\n%s", kind, d, data)
	}
	c.NonTrivial(data)
}
