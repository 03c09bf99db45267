package c23

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/qri-io/dataset"
	"github.com/qri-io/qfs"
	"verif/mx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a dataset or component with some of its content sources set (inline, path, file already open), opened, read and inlined several times through no, a working or a failing resolver; non-trivial = at least one source set; distinct by sources, resolver and operations")
}

func TestC23(t *testing.T) {
	vt.Check(t, "body", 12000, 240000, body)
	vt.Check(t, "script", 20000, 400000, script)
	vt.Check(t, "rendered", 8000, 160000, rendered)
}

var errGet = errors.New("resolver failure")

// store is an in-memory resolver that can fail, or serve a file that fails when read.
type store struct {
	files map[string][]byte
	fail  bool
	cut   map[string]int // fail reading after so many bytes
	asked []string
}

func (s *store) Get(ctx context.Context, path string) (qfs.File, error) {
	s.asked = append(s.asked, path)
	if s.fail {
		return nil, errGet
	}
	data, ok := s.files[path]
	if !ok {
		return nil, qfs.ErrNotFound
	}
	if n, ok := s.cut[path]; ok {
		return qfs.NewMemfileReader(path, &vt.Chunked{Data: data[:n], Plan: []int{3}, Err: vt.ErrFault}), nil
	}
	return qfs.NewMemfileBytes(path, append([]byte(nil), data...)), nil
}

func content(c *vt.C) []byte {
	b := []byte(vt.Str(c.T, vt.StrOpts{}))
	if vt.Chance(c.T, 20, "bigContent") {
		b = bytes.Repeat(append(b, 'x'), vt.N(c.T, 1, 3000, "rep"))
		if vt.Chance(c.T, 3, "hugeContent") {
			c.Label("huge content")
			b = bytes.Repeat([]byte("0123456789abcde\n"), vt.U(c.T, 10, 150000, "rep"))
		}
	}
	if vt.Chance(c.T, 6, "binary") {
		b = vt.Bytes(c.T, 40)
	}
	return b
}

func slurp(c *vt.C, f qfs.File) []byte {
	b, err := io.ReadAll(f)
	if err != nil {
		c.Fatalf("reading an opened file: %v", err)
	}
	_ = f.Close()
	return b
}

func resolver(c *vt.C, path string, data []byte) (*store, qfs.PathResolver, string) {
	s := &store{files: map[string][]byte{"other": []byte("other")}, cut: map[string]int{}}
	switch vt.N(c.T, 0, 5, "resolver") {
	case 0:
		return s, nil, "none"
	case 1:
		s.fail = true
		return s, s, "failing"
	case 2:
		return s, s, "missing"
	}
	s.files[path] = data
	return s, s, "ok"
}

func body(c *vt.C) {
	ctx := context.Background()
	ds := &dataset.Dataset{}
	desc := ""
	if vt.Chance(c.T, 4, "inline") {
		ds.Body = mx.Free(c.T, 1)
		if ds.Body == nil {
			ds.Body = []interface{}{}
		}
		desc += " body"
	}
	inline := content(c)
	if vt.Bool(c.T, "bytes") {
		ds.BodyBytes = append([]byte{}, inline...)
		desc += fmt.Sprintf(" bytes=%q", inline)
	}
	stored := content(c)
	path := "/mem/" + mx.Text(c.T, mx.Opts{})
	if vt.Bool(c.T, "path") {
		ds.BodyPath = path
		desc += " path"
	}
	if path == "other" {
		return
	}
	var set []byte
	hadFile := vt.Chance(c.T, 3, "preset")
	if hadFile {
		set = []byte("preset file")
		ds.SetBodyFile(qfs.NewMemfileBytes("preset", set))
		desc += " preset"
	}
	s, r, mode := resolver(c, path, stored)
	desc += " " + mode
	snap := mx.Copy(ds)
	for round := 0; round < vt.N(c.T, 1, 3, "rounds"); round++ {
		if mode == "ok" && vt.Chance(c.T, 4, "updated") { // the path serves new content
			stored = content(c)
			s.files[path] = stored
		}
		asked := len(s.asked)
		err := ds.OpenBodyFile(ctx, r)
		var want []byte
		var wantErr error
		must := true
		switch {
		case ds.Body != nil:
			wantErr = dataset.ErrInlineBody
		case ds.BodyBytes != nil:
			want = inline
		case ds.BodyPath == "":
			must = false
		case mode == "none":
			wantErr = dataset.ErrNoResolver
		case mode != "ok":
			wantErr = errGet // any error
		default:
			want = stored
			if got := s.asked[asked:]; len(got) != 1 || got[0] != path {
				c.Fatalf("%s: resolver asked for %q", desc, got)
			}
		}
		if wantErr == errGet {
			if err == nil {
				c.Fatalf("%s: no error", desc)
			}
		} else if !errors.Is(err, wantErr) {
			c.Fatalf("%s: error %v, want %v", desc, err, wantErr)
		}
		if ds.BodyBytes != nil && len(s.asked) != 0 {
			c.Fatalf("%s: resolver used despite inline content", desc)
		}
		if wantErr == nil && must {
			f := ds.BodyFile()
			if f == nil {
				c.Fatalf("%s: no body file", desc)
			}
			if ds.BodyBytes != nil && ds.BodyPath != "" && f.FullPath() != path {
				c.Fatalf("%s: body file is called %q, want %q", desc, f.FullPath(), path)
			}
			if got := slurp(c, f); !bytes.Equal(got, want) {
				c.Fatalf("%s round %d: body file has %q, want %q", desc, round, got, want)
			}
		}
		if !must {
			if f := ds.BodyFile(); (f != nil) != hadFile {
				c.Fatalf("%s: body file appeared or vanished", desc)
			}
		}
		if d := mx.Diff(snap, ds, mx.DiffOpts{}); d != "" {
			c.Fatalf("%s: opening changed the dataset: %s", desc, d)
		}
	}
	if (*dataset.Dataset)(nil).BodyFile() != nil {
		c.Fatalf("body file of no dataset")
	}
	c.Label(mode)
	if ds.Body != nil || ds.BodyBytes != nil || ds.BodyPath != "" {
		c.NonTrivial(desc, stored)
	}
	c.Sample("%s", desc)
}

type scripted interface {
	OpenScriptFile(context.Context, qfs.PathResolver) error
	InlineScriptFile(context.Context, qfs.PathResolver) error
	SetScriptFile(qfs.File)
	ScriptFile() qfs.File
}

func script(c *vt.C) {
	ctx := context.Background()
	kind := vt.One(c.T, "kind", "readme", "viz", "transform")
	v := mx.New(kind)
	sc := v.(scripted)
	desc := kind
	text, path := "", ""
	if vt.Bool(c.T, "text") {
		text = mx.Text(c.T, mx.Opts{})
		desc += fmt.Sprintf(" text=%q", text)
	}
	if vt.Bool(c.T, "path") {
		path = "/mem/" + mx.Text(c.T, mx.Opts{})
		desc += " path"
	}
	mx.Field(v, "Text").SetString(text)
	mx.Field(v, "ScriptPath").SetString(path)
	other := mx.Text(c.T, mx.Opts{})
	mx.Field(v, "Path").SetString(other)
	stored := content(c)
	s, r, mode := resolver(c, path, stored)
	if mode == "ok" && vt.Chance(c.T, 5, "readFails") {
		mode = "readfails"
		s.cut[path] = vt.N(c.T, 0, len(stored), "cut")
	}
	desc += " " + mode
	var preset []byte
	hasPreset := vt.Chance(c.T, 3, "preset")
	if hasPreset {
		preset = content(c)
		sc.SetScriptFile(qfs.NewMemfileBytes("preset", append([]byte(nil), preset...)))
		desc += " preset"
	}
	for i, n := 0, vt.N(c.T, 1, 4, "ops"); i < n; i++ {
		want := mx.Copy(v)
		if vt.Bool(c.T, "inlineOp") {
			desc += " inline"
			err := sc.InlineScriptFile(ctx, r)
			switch {
			case mode == "none":
				if err != nil {
					c.Fatalf("%s: %v", desc, err)
				}
			case text != "":
				// the file is the text itself
				path = ""
				if err != nil {
					c.Fatalf("%s: %v", desc, err)
				}
			case path != "":
				if (err == nil) != (mode == "ok") {
					c.Fatalf("%s: error %v", desc, err)
				}
				if err == nil {
					text, path = string(stored), ""
					hasPreset = false
				}
			default:
				if err != nil {
					c.Fatalf("%s: %v", desc, err)
				}
				if hasPreset {
					text = string(preset)
				}
			}
			mx.Field(want, "Text").SetString(text)
			mx.Field(want, "ScriptPath").SetString(path)
			if text == "" && path == "" {
				hasPreset = false // consumed
				if d := mx.Diff(want, v, mx.DiffOpts{}); d != "" {
					c.Fatalf("%s: %s", desc, d)
				}
				break
			}
		} else {
			desc += " open"
			asked := len(s.asked)
			err := sc.OpenScriptFile(ctx, r)
			var data []byte
			ok := true
			switch {
			case text != "":
				data = []byte(text)
				if len(s.asked) != asked {
					c.Fatalf("%s: resolver used despite inline text", desc)
				}
			case path == "":
				ok = false
				if err != nil {
					c.Fatalf("%s: %v", desc, err)
				}
			case mode == "none":
				ok = false
				if !errors.Is(err, dataset.ErrNoResolver) {
					c.Fatalf("%s: error %v", desc, err)
				}
			case mode == "ok" || mode == "readfails":
				data = stored
				if got := s.asked[asked:]; len(got) != 1 || got[0] != path {
					c.Fatalf("%s: resolver asked for %q", desc, got)
				}
				ok = mode == "ok"
				if err != nil {
					c.Fatalf("%s: %v", desc, err)
				}
			default:
				ok = false
				if err == nil {
					c.Fatalf("%s: no error", desc)
				}
			}
			if ok {
				if err != nil {
					c.Fatalf("%s: %v", desc, err)
				}
				f := sc.ScriptFile()
				if f == nil {
					c.Fatalf("%s: no script file", desc)
				}
				if vt.Bool(c.T, "read") {
					if got := slurp(c, f); !bytes.Equal(got, data) {
						c.Fatalf("%s: script file has %q, want %q", desc, got, data)
					}
				}
			}
		}
		if d := mx.Diff(want, v, mx.DiffOpts{}); d != "" {
			c.Fatalf("%s: %s", desc, d)
		}
	}
	c.Label(kind + " " + mode)
	c.NonTrivial(desc, stored)
	c.Sample("%s", desc)
}

type renderer interface {
	OpenRenderedFile(context.Context, qfs.PathResolver) error
	SetRenderedFile(qfs.File)
	RenderedFile() qfs.File
}

func rendered(c *vt.C) {
	ctx := context.Background()
	kind := vt.One(c.T, "kind", "readme", "viz")
	v := mx.Gen(c.T, kind, mx.Opts{})
	rd := v.(renderer)
	path := ""
	if vt.N(c.T, 0, 2, "path") > 0 {
		path = "/mem/" + mx.Text(c.T, mx.Opts{})
	}
	mx.Field(v, "RenderedPath").SetString(path)
	snap := mx.Copy(v)
	stored := content(c)
	s, r, mode := resolver(c, path, stored)
	preset := vt.Bool(c.T, "preset")
	if preset {
		rd.SetRenderedFile(qfs.NewMemfileBytes("preset", []byte("preset")))
	}
	for round := 0; round < 2; round++ {
		asked := len(s.asked)
		err := rd.OpenRenderedFile(ctx, r)
		switch {
		case path == "":
			if err != nil || len(s.asked) != asked {
				c.Fatalf("%s without rendered path: %v, asked %q", kind, err, s.asked)
			}
			if preset != (rd.RenderedFile() != nil) {
				c.Fatalf("%s: rendered file appeared or vanished", kind)
			}
		case mode == "none":
			if !errors.Is(err, dataset.ErrNoResolver) {
				c.Fatalf("%s: error %v", kind, err)
			}
		case mode == "ok":
			if err != nil || rd.RenderedFile() == nil {
				c.Fatalf("%s: %v, file %v", kind, err, rd.RenderedFile())
			}
			if got := slurp(c, rd.RenderedFile()); !bytes.Equal(got, stored) {
				c.Fatalf("%s: rendered file has %q, want %q", kind, got, stored)
			}
		default:
			if err == nil {
				c.Fatalf("%s: no error from a %s resolver", kind, mode)
			}
		}
		if d := mx.Diff(snap, v, mx.DiffOpts{}); d != "" {
			c.Fatalf("%s: opening changed it: %s", kind, d)
		}
	}
	c.Label(kind + " " + mode)
	if path != "" {
		c.NonTrivial(kind, path, mode, stored)
	}
}
