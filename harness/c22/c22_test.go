package c22

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/qri-io/dataset"
	"verif/mx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a dataset's signing bytes against a reference list, the same after one change of a signed or unsigned value, or its path map with a set of ignored names; non-trivial = at least two lines or entries; distinct by dataset")
}

func TestC22(t *testing.T) {
	vt.Check(t, "bytes", 16000, 320000, signing)
	vt.Check(t, "change", 24000, 480000, change)
	vt.Check(t, "tweak", 16000, 320000, tweaked)
	vt.Check(t, "paths", 12000, 240000, paths)
	vt.Check(t, "signable", 4000, 80000, signable)
}

func stamp(t time.Time) string {
	u := t.UTC()
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02dZ", u.Year(), int(u.Month()), u.Day(), u.Hour(), u.Minute(), u.Second())
}

// reference lists the signed values in the documented order.
func reference(ds *dataset.Dataset) []string {
	var out []string
	add := func(prefix, v string) {
		if v != "" {
			out = append(out, prefix+":"+v)
		}
	}
	add("id", ds.ID)
	add("bd", ds.BodyPath)
	if ds.Commit != nil && !ds.Commit.Timestamp.IsZero() {
		add("cm", stamp(ds.Commit.Timestamp))
	}
	if ds.Meta != nil {
		add("md", ds.Meta.Path)
	}
	if ds.Readme != nil {
		add("rm", ds.Readme.Path)
	}
	if ds.Structure != nil {
		add("st", ds.Structure.Path)
	}
	if ds.Transform != nil {
		add("tf", ds.Transform.Path)
	}
	if ds.Stats != nil {
		add("sa", ds.Stats.Path)
	}
	if ds.Viz != nil {
		add("vz", ds.Viz.Path)
	}
	return out
}

func gen(c *vt.C) *dataset.Dataset {
	return mx.Gen(c.T, "dataset", mx.Opts{Line: true}).(*dataset.Dataset)
}

func signing(c *vt.C) {
	ds := gen(c)
	snap := mx.Copy(ds)
	want := reference(ds)
	got := ds.SigningBytes()
	if string(got) != strings.Join(want, "\n") {
		c.Fatalf("signing bytes\n%q\nwant\n%q", got, strings.Join(want, "\n"))
	}
	if !bytes.Equal(got, ds.SigningBytes()) {
		c.Fatalf("signing bytes differ when asked again")
	}
	if d := mx.Diff(snap, ds, mx.DiffOpts{}); d != "" {
		c.Fatalf("signing changed the dataset: %s", d)
	}
	if !bytes.Equal(got, mx.Copy(ds).(*dataset.Dataset).SigningBytes()) {
		c.Fatalf("signing bytes of a copy differ")
	}
	c.Labelf("lines=%d", len(want))
	if len(want) >= 2 {
		c.NonTrivial(got)
	}
	c.Sample("%q", got)
}

// change alters one field anywhere in the dataset.
func change(c *vt.C) {
	ds := gen(c)
	before := ds.SigningBytes()
	mod := mx.Copy(ds).(*dataset.Dataset)
	var target interface{} = mod
	if vt.Bool(c.T, "inComponent") {
		var comps []interface{}
		rv := reflect.ValueOf(mod).Elem()
		for i := 0; i < rv.NumField(); i++ {
			if f := rv.Field(i); rv.Type().Field(i).PkgPath == "" && f.Kind() == reflect.Ptr && !f.IsNil() {
				comps = append(comps, f.Interface())
			}
		}
		if len(comps) > 0 {
			target = comps[vt.N(c.T, 0, len(comps)-1, "comp")]
		}
	}
	kind := mx.KindOf(target)
	fields := mx.Fields(kind)
	f := fields[vt.N(c.T, 0, len(fields)-1, "field")]
	zone := false
	if kind == "commit" && f == "Timestamp" {
		cm := target.(*dataset.Commit)
		switch vt.N(c.T, 0, 3, "tsChange") {
		case 0: // another zone, same instant
			if cm.Timestamp.IsZero() {
				return
			}
			cm.Timestamp = cm.Timestamp.In(time.FixedZone("x", 900*vt.N(c.T, -50, 50, "zone")))
			zone = true
		case 1: // another part of the same second
			if cm.Timestamp.IsZero() {
				return
			}
			cm.Timestamp = cm.Timestamp.Truncate(time.Second).Add(time.Duration(vt.N(c.T, 0, 999999999, "ns")))
			zone = true
		case 2:
			cm.Timestamp = cm.Timestamp.Add(time.Duration(vt.N(c.T, 1, 5, "secs")) * time.Second)
		default:
			cm.Timestamp = mx.Time(c.T)
		}
	} else if vt.Chance(c.T, 4, "clear") {
		fv := mx.Field(target, f)
		fv.Set(reflect.Zero(fv.Type()))
	} else {
		mx.GenField(c.T, target, f, mx.Opts{Line: true})
	}
	signed := (kind == "dataset" && (f == "ID" || f == "BodyPath")) || (kind == "commit" && f == "Timestamp" && !zone) || (kind != "dataset" && kind != "commit" && f == "Path")
	if kind == "dataset" && mx.Field(mod, f).Kind() == reflect.Ptr {
		signed = !reflect.DeepEqual(reference(ds), reference(mod))
	}
	after := mod.SigningBytes()
	same := true
	switch {
	case !signed:
	case kind == "commit":
		same = stamp(ds.Commit.Timestamp) == stamp(mod.Commit.Timestamp) && ds.Commit.Timestamp.IsZero() == mod.Commit.Timestamp.IsZero()
	case kind == "dataset":
		if f == "ID" || f == "BodyPath" {
			same = mx.Field(ds, f).String() == mx.Field(mod, f).String()
		} else {
			same = false
		}
	default:
		orig := reflect.ValueOf(ds).Elem().FieldByName(strings.ToUpper(kind[:1]) + kind[1:]).Interface()
		same = mx.Field(orig, "Path").String() == mx.Field(target, "Path").String()
	}
	if same != bytes.Equal(before, after) {
		c.Fatalf("changing %s.%s: signing bytes equal=%v, want %v\n%q\n%q", kind, f, bytes.Equal(before, after), same, before, after)
	}
	c.Labelf("signed=%v", signed)
	c.NonTrivial(before, after, kind, f)
	c.Sample("%s.%s: %q -> %q", kind, f, before, after)
}

// tweaked changes one small thing anywhere in the document.
func tweaked(c *vt.C) {
	ds := gen(c)
	mod := mx.Copy(ds).(*dataset.Dataset)
	where := mx.Tweak(c.T, mod)
	lines := reference(mod)
	for _, l := range lines {
		if strings.Contains(l, "\n") {
			return // could be read as several lines
		}
	}
	same := reflect.DeepEqual(reference(ds), lines)
	a, b := ds.SigningBytes(), mod.SigningBytes()
	if same != bytes.Equal(a, b) {
		c.Fatalf("changing %s: signing bytes equal=%v, want %v\n%q\n%q", where, !same, same, a, b)
	}
	c.Labelf("same=%v", same)
	c.NonTrivial(a, b, where)
}

func paths(c *vt.C) {
	ds := gen(c)
	snap := mx.Copy(ds)
	var ignore []string
	names := []string{"body", "commit", "meta", "dataset", "readme", "structure", "transform", "viz", "stats", "other", ""}
	n := vt.N(c.T, 0, 4, "ignore")
	if vt.Chance(c.T, 5, "long") {
		n = vt.N(c.T, 5, 40, "many")
	}
	for i := 0; i < n; i++ {
		name := vt.One(c.T, "name", names...)
		switch vt.N(c.T, 0, 9, "near") {
		case 0: // no name of a component
			name = strings.ToUpper(name)
		case 1:
			name = " " + name
		case 2:
			name += "s"
		}
		ignore = append(ignore, name)
	}
	if vt.Chance(c.T, 20, "nil") {
		if m := (*dataset.Dataset)(nil).PathMap(ignore...); len(m) != 0 {
			c.Fatalf("path map of no dataset: %v", m)
		}
	}
	want := map[string]string{}
	if ds.BodyPath != "" {
		want["body"] = ds.BodyPath
	}
	if ds.Path != "" {
		want["dataset"] = ds.Path
	}
	rv := reflect.ValueOf(ds).Elem()
	for i := 0; i < rv.NumField(); i++ {
		if f := rv.Field(i); rv.Type().Field(i).PkgPath == "" && f.Kind() == reflect.Ptr && !f.IsNil() {
			want[strings.ToLower(rv.Type().Field(i).Name)] = f.Elem().FieldByName("Path").String()
		}
	}
	for _, n := range ignore {
		delete(want, n)
	}
	got := ds.PathMap(ignore...)
	if !reflect.DeepEqual(want, got) {
		c.Fatalf("path map ignoring %q: %v, want %v", ignore, got, want)
	}
	if d := mx.Diff(snap, ds, mx.DiffOpts{}); d != "" {
		c.Fatalf("the path map changed the dataset: %s", d)
	}
	if len(want) >= 2 {
		c.NonTrivial(mx.Sprint(ds), strings.Join(ignore, ","))
	}
	c.Sample("ignoring %q: %v", ignore, got)
}

func signable(c *vt.C) {
	ds := gen(c)
	got, err := ds.SignableBytes()
	if ds.Commit == nil || ds.Structure == nil {
		if err == nil {
			c.Fatalf("signable bytes without commit or structure: %q", got)
		}
		return
	}
	if err != nil {
		c.Fatalf("%v", err)
	}
	if want := stamp(ds.Commit.Timestamp) + "\n" + ds.Structure.Checksum; string(got) != want {
		c.Fatalf("signable bytes %q, want %q", got, want)
	}
	c.NonTrivial(got)
}
