package c38

import (
	"bytes"
	"encoding/json"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/dataset/dstest"
	"github.com/qri-io/qfs"
	"verif/mx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	os.Unsetenv(dstest.UpdateGoldenFileEnvVarname)
	vt.Main(m, "case = a scratch directory holding a generated subset of the files of a test case, some of them broken, loaded alone, again and with others; or a dataset and a copy or changed copy that are checksummed; or a dataset written as a golden file; non-trivial = at least two files, or a dataset with at least two fields; distinct by files and contents or by datasets")
}

func TestC38(t *testing.T) {
	vt.Check(t, "cases", 4000, 80000, cases)
	vt.Check(t, "checksum", 12000, 240000, checksum)
	vt.Check(t, "golden", 3000, 60000, func(c *vt.C) { golden(c, t) })
}

// dir is one generated test case directory.
type dir struct {
	name   string
	files  map[string][]byte
	broken bool // has a file no test case can be read from
	input  *dataset.Dataset
	expect *dataset.Dataset
}

func document(c *vt.C) (*dataset.Dataset, []byte) {
	ds := mx.Gen(c.T, "dataset", mx.Opts{KindOnly: true}).(*dataset.Dataset)
	data, err := json.Marshal(ds)
	if err != nil {
		c.Fatalf("encode: %v", err)
	}
	// what the document itself says: C16 decides how documents decode
	got := &dataset.Dataset{}
	if err := json.Unmarshal(data, got); err != nil {
		c.Fatalf("decode: %v", err)
	}
	return got, data
}

var scripts = []string{"transform.star", "template.html", "readme.md"}

func draw(c *vt.C, name string) *dir {
	d := &dir{name: name, files: map[string][]byte{}}
	doc := func(file string) *dataset.Dataset {
		switch vt.N(c.T, 0, 9, file) {
		case 0, 1, 2, 3:
			return nil
		case 4:
			d.files[file] = []byte([]string{"", "{", "[]", "nul", "{\"name\":1}", "12"}[vt.N(c.T, 0, 5, "broken")])
			d.broken = true
			return nil
		}
		ds, data := document(c)
		d.files[file] = data
		return ds
	}
	d.input = doc("input.dataset.json")
	d.expect = doc("expect.dataset.json")
	if vt.N(c.T, 0, 2, "body") > 0 {
		for i, n := 0, 1+vt.N(c.T, 0, 9, "bodies")/8; i < n; i++ {
			f := dataset.SupportedDataFormats()[vt.N(c.T, 0, len(dataset.SupportedDataFormats())-1, "format")]
			d.files["body."+f.String()] = vt.Bytes(c.T, 60)
		}
	}
	for _, s := range scripts {
		if vt.Bool(c.T, s) {
			d.files[s] = vt.Bytes(c.T, 60)
		}
	}
	if vt.Chance(c.T, 6, "rendered") {
		d.files["rendered.html"] = vt.Bytes(c.T, 60)
	}
	// files that are no part of a test case
	if vt.Chance(c.T, 6, "other") {
		d.files[[]string{"body", "body.txt", "body.xml", "data.csv", "readme.txt", "dataset.json", "input.json", "body.csv.bak"}[vt.N(c.T, 0, 7, "otherName")]] = []byte("{")
	}
	return d
}

func (d *dir) write(c *vt.C, base string) string {
	p := filepath.Join(base, d.name)
	if err := os.MkdirAll(p, 0755); err != nil {
		c.Fatalf("%v", err)
	}
	for n, data := range d.files {
		if err := ioutil.WriteFile(filepath.Join(p, n), data, 0644); err != nil {
			c.Fatalf("%v", err)
		}
	}
	return p
}

func (d *dir) body() string {
	for _, f := range dataset.SupportedDataFormats() {
		if _, ok := d.files["body."+f.String()]; ok {
			return "body." + f.String()
		}
	}
	return ""
}

func (d *dir) loads() bool {
	if d.broken {
		return false
	}
	if d.body() != "" {
		return true
	}
	for n := range d.files {
		if n == "input.dataset.json" || n == "expect.dataset.json" || n == scripts[0] || n == scripts[1] || n == scripts[2] {
			return true
		}
	}
	return false
}

func contents(c *vt.C, f qfs.File) string {
	if f == nil {
		return "no file"
	}
	data, err := ioutil.ReadAll(f)
	if err != nil {
		c.Fatalf("read: %v", err)
	}
	return string(data)
}

func noFile(f qfs.File) bool { return f == nil || reflect.ValueOf(f).IsNil() }

// check compares a loaded test case with the directory it came from.
func (d *dir) check(c *vt.C, tc dstest.TestCase, path string) {
	if tc.Name != d.name || tc.Path != path {
		c.Fatalf("case %q of %q is %q of %q", d.name, path, tc.Name, tc.Path)
	}
	want := &dataset.Dataset{}
	if d.input != nil {
		want = mx.Copy(d.input).(*dataset.Dataset)
	}
	want.Name = d.name
	if tc.Input == nil {
		c.Fatalf("case has no input")
	}
	body := d.body()
	if tc.BodyFilename != body || !bytes.Equal(tc.Body, d.files[body]) || (body == "") != (tc.Body == nil) {
		c.Fatalf("body %q %q, want %q %q", tc.BodyFilename, tc.Body, body, d.files[body])
	}
	if body == "" {
		if !noFile(tc.Input.BodyFile()) {
			c.Fatalf("input has a body file where the directory has none")
		}
	} else {
		f := tc.BodyFile()
		if f.FileName() != body || contents(c, f) != string(d.files[body]) {
			c.Fatalf("body file %q differs from the directory's", f.FileName())
		}
		f = tc.Input.BodyFile()
		if noFile(f) || filepath.Base(f.FileName()) != body || contents(c, f) != string(d.files[body]) {
			c.Fatalf("input's body file differs from %q", body)
		}
		// a second file starts from the beginning
		if contents(c, tc.BodyFile()) != string(d.files[body]) {
			c.Fatalf("body file opened again is not whole")
		}
	}
	p, err := dstest.BodyFilepath(path)
	if body == "" {
		if err == nil {
			c.Fatalf("body file path %q where there is no body", p)
		}
	} else if err != nil || filepath.Clean(p) != filepath.Join(path, body) {
		c.Fatalf("body file path %q, %v; want %q", p, err, body)
	}
	type scr struct {
		file     string
		name     string
		data     []byte
		open     func() (qfs.File, bool)
		attached qfs.File
	}
	var at [3]qfs.File
	if tc.Input.Transform != nil {
		at[0] = tc.Input.Transform.ScriptFile()
	}
	if tc.Input.Viz != nil {
		at[1] = tc.Input.Viz.ScriptFile()
	}
	if tc.Input.Readme != nil {
		at[2] = tc.Input.Readme.ScriptFile()
	}
	for _, s := range []scr{
		{scripts[0], tc.TransformScriptFilename, tc.TransformScript, tc.TransformScriptFile, at[0]},
		{scripts[1], tc.VizScriptFilename, tc.VizScript, tc.VizScriptFile, at[1]},
		{scripts[2], tc.ReadmeScriptFilename, tc.ReadmeScript, tc.ReadmeScriptFile, at[2]},
	} {
		data, ok := d.files[s.file]
		f, opened := s.open()
		if opened != ok || !bytes.Equal(s.data, data) {
			c.Fatalf("script %s present=%v: opened=%v %q, want %q", s.file, ok, opened, s.data, data)
		}
		if !ok {
			if s.name != "" || !noFile(s.attached) {
				c.Fatalf("script %s where there is none: %q", s.file, s.name)
			}
			continue
		}
		if s.name != s.file || f.FileName() != s.file || contents(c, f) != string(data) {
			c.Fatalf("script file %s named %q differs from the directory's", s.file, f.FileName())
		}
		if noFile(s.attached) || s.attached.FileName() != s.file || contents(c, s.attached) != string(data) {
			c.Fatalf("input's script file differs from %s", s.file)
		}
	}
	if want.Transform == nil && d.files[scripts[0]] != nil {
		want.Transform = &dataset.Transform{}
	}
	if want.Viz == nil && d.files[scripts[1]] != nil {
		want.Viz = &dataset.Viz{}
	}
	if want.Readme == nil && d.files[scripts[2]] != nil {
		want.Readme = &dataset.Readme{}
	}
	if x := mx.Diff(want, tc.Input, mx.DiffOpts{}); x != "" {
		c.Fatalf("input differs from its file: %s", x)
	}
	if (d.expect == nil) != (tc.Expect == nil) {
		c.Fatalf("expected dataset in file: %v, in case: %v", d.expect != nil, tc.Expect != nil)
	}
	if d.expect != nil {
		if x := mx.Diff(d.expect, tc.Expect, mx.DiffOpts{}); x != "" {
			c.Fatalf("expected dataset differs from its file: %s", x)
		}
	}
	data, ok := d.files["rendered.html"]
	rf, err := tc.RenderedFile()
	if ok != (err == nil) {
		c.Fatalf("rendered file present=%v: %v", ok, err)
	}
	if ok {
		if rf.FileName() != "rendered.html" || contents(c, rf) != string(data) {
			c.Fatalf("rendered file %q differs from the directory's", rf.FileName())
		}
		rf.Close()
	}
}

func cases(c *vt.C) {
	base, err := ioutil.TempDir("", "c38")
	if err != nil {
		c.Fatalf("%v", err)
	}
	defer os.RemoveAll(base)
	n := vt.N(c.T, 1, 3, "dirs")
	dirs := []*dir{}
	files := 0
	key := []interface{}{}
	for i := 0; i < n; i++ {
		d := draw(c, []string{"a", "complete", "dir.with.dots"}[i])
		if vt.Chance(c.T, 3, "oddName") {
			d.name = []string{".a", "_b", "a b", "é", "a.json", "0", "body.csv", "A", "a%20", "..."}[3*vt.N(c.T, 0, 2, "odd")+i]
		}
		d.write(c, base)
		files += len(d.files)
		dirs = append(dirs, d)
		for _, k := range keys(d.files) {
			key = append(key, d.name, k, string(d.files[k]))
		}
		c.Labelf("loads %v", d.loads())
	}
	if vt.Chance(c.T, 3, "stray") {
		ioutil.WriteFile(filepath.Join(base, "stray.json"), []byte("{}"), 0644)
	}
	if files > 1 {
		c.NonTrivial(key...)
	}
	load := func() map[string]dstest.TestCase {
		tcs, err := dstest.LoadTestCases(base)
		if err != nil {
			c.Fatalf("loading %d directories: %v", n, err)
		}
		return tcs
	}
	verify := func(tcs map[string]dstest.TestCase) {
		want := 0
		for _, d := range dirs {
			tc, ok := tcs[d.name]
			if ok != d.loads() {
				c.Fatalf("directory with %v loaded: %v, want %v", keys(d.files), ok, d.loads())
			}
			if ok {
				want++
				d.check(c, tc, filepath.Join(base, d.name))
			}
		}
		if len(tcs) != want {
			c.Fatalf("%d cases loaded, want %d", len(tcs), want)
		}
	}
	verify(load())
	// again, and several at once: cases share nothing
	all := make([]map[string]dstest.TestCase, 2)
	var wg sync.WaitGroup
	for i := range all {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			all[i], _ = dstest.LoadTestCases(base)
		}(i)
	}
	wg.Wait()
	for _, d := range dirs {
		if tc, ok := all[0][d.name]; ok {
			for i := range tc.Body {
				tc.Body[i] ^= 0xff
			}
			for i := range tc.ReadmeScript {
				tc.ReadmeScript[i] ^= 0xff
			}
			tc.Input.Name = "changed"
			if tc.Input.Meta != nil {
				tc.Input.Meta.Title += "changed"
			}
			if tc.Expect != nil {
				tc.Expect.Name += "changed"
			}
		}
	}
	verify(all[1])
	verify(load())
	for _, d := range dirs {
		tc, err := dstest.NewTestCaseFromDir(filepath.Join(base, d.name))
		if d.loads() != (err == nil) {
			c.Fatalf("directory with %v loaded: %v", keys(d.files), err)
		}
		if err == nil {
			d.check(c, tc, filepath.Join(base, d.name))
		}
	}
	if tcs, err := dstest.LoadTestCases(filepath.Join(base, "absent")); err == nil {
		c.Fatalf("a missing directory loads: %v", tcs)
	}
	if _, err := dstest.NewTestCaseFromDir(filepath.Join(base, "absent")); err == nil {
		c.Fatalf("a missing case loads")
	}
	// nothing stays open
	if fds, err := ioutil.ReadDir("/proc/self/fd"); err == nil {
		for _, fd := range fds {
			if l, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(l, base+"/") && !strings.HasSuffix(l, "rendered.html") {
				c.Fatalf("loading left %s open", strings.TrimPrefix(l, base))
			}
		}
	}
}

func keys(m map[string][]byte) []string {
	g := map[string]interface{}{}
	for k := range m {
		g[k] = nil
	}
	return vt.SortedKeys(g)
}

// checksum: equal datasets have equal checksums, different ones differ.
func checksum(c *vt.C) {
	a := mx.Gen(c.T, "dataset", mx.Opts{}).(*dataset.Dataset)
	b := mx.Copy(a).(*dataset.Dataset)
	change := vt.Bool(c.T, "change")
	if change && vt.Chance(c.T, 3, "tweak") {
		mx.Tweak(c.T, b)
	} else if change {
		fs := mx.Fields("dataset")
		f := fs[vt.N(c.T, 0, len(fs)-1, "field")]
		sub := mx.Field(b, f)
		if sub.Kind() == reflect.Ptr && !sub.IsNil() && vt.Bool(c.T, "inner") {
			sf := mx.Fields(mx.KindOf(sub.Interface()))
			mx.GenField(c.T, sub.Interface(), sf[vt.N(c.T, 0, len(sf)-1, "innerField")], mx.Opts{})
		} else {
			mx.GenField(c.T, b, f, mx.Opts{})
		}
	}
	differ := mx.Diff(a, b, mx.DiffOpts{Skip: func(k, f string) bool { return f == "meta" }}) != ""
	if mx.SetCount(a) > 1 {
		c.NonTrivial(mx.Sprint(a), mx.Sprint(b))
	}
	snap := mx.Copy(a)
	x, again, y := dstest.DatasetChecksum(a), dstest.DatasetChecksum(a), dstest.DatasetChecksum(b)
	if d := mx.Diff(snap, a, mx.DiffOpts{}); d != "" {
		c.Fatalf("checksumming changed the dataset: %s", d)
	}
	if x != again || len(x) != 40 {
		c.Fatalf("checksums of one dataset: %s and %s", x, again)
	}
	if !change && x != y {
		c.Fatalf("equal datasets have checksums %s and %s: %s", x, y, mx.Sprint(a))
	}
	if differ && x == y {
		c.Fatalf("different datasets have checksum %s: %s and %s", x, mx.Sprint(a), mx.Sprint(b))
	}
	c.Labelf("differ %v", differ)
}

func golden(c *vt.C, t *testing.T) {
	base, err := ioutil.TempDir("", "c38")
	if err != nil {
		c.Fatalf("%v", err)
	}
	defer os.RemoveAll(base)
	file := filepath.Join(base, "golden.json")
	old, oldData := document(c)
	now, _ := document(c)
	if mx.SetCount(now) > 1 {
		c.NonTrivial(mx.Sprint(old), mx.Sprint(now))
	}
	if err := ioutil.WriteFile(file, oldData, 0644); err != nil {
		c.Fatalf("%v", err)
	}
	got := dstest.LoadGoldenFile(t, file)
	if d := mx.Diff(old, got, mx.DiffOpts{}); d != "" {
		c.Fatalf("golden file loaded: %s", d)
	}
	if vt.Bool(c.T, "setEmpty") {
		os.Setenv(dstest.UpdateGoldenFileEnvVarname, "")
	}
	dstest.CompareGoldenDatasetAndUpdateIfEnvVarSet(t, file, got)
	dstest.UpdateGoldenFileIfEnvVarSet(file, now)
	if data, _ := ioutil.ReadFile(file); !bytes.Equal(data, oldData) {
		c.Fatalf("golden file was changed without being asked to")
	}
	os.Setenv(dstest.UpdateGoldenFileEnvVarname, "1")
	dstest.UpdateGoldenFileIfEnvVarSet(file, now)
	os.Unsetenv(dstest.UpdateGoldenFileEnvVarname)
	got = dstest.LoadGoldenFile(t, file)
	want := &dataset.Dataset{}
	data, err := json.Marshal(now)
	if err != nil {
		c.Fatalf("encode: %v", err)
	}
	if err := json.Unmarshal(data, want); err != nil {
		c.Fatalf("decode: %v", err)
	}
	if d := mx.Diff(want, got, mx.DiffOpts{}); d != "" {
		c.Fatalf("updated golden file loaded: %s", d)
	}
}
